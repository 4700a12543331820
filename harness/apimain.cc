// The library interface the graphical front end uses: settings are set one by one in the given order
// (key=value arguments up to "--"), then the model files are loaded, analysed and reported.
//   apimain [key=value...] -- output model...
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <string>
#include <vector>

#include "src/error.h"
#include "src/initializer.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/settings.h"

namespace {

/// Calls one setter.  Returns false if there is no such setting.
bool Set(scram::core::Settings& s, const std::string& a) {
  auto k = a.substr(0, a.find('=')), v = a.substr(a.find('=') + 1);
  bool b = v == "1";
  int n = std::atoi(v.c_str());
  double d = std::strtod(v.c_str(), nullptr);
  if (k == "algorithm") s.algorithm(std::string_view(v));
  else if (k == "approximation") s.approximation(std::string_view(v));
  else if (k == "prime") s.prime_implicants(b);
  else if (k == "limit") s.limit_order(n);
  else if (k == "cutoff") s.cut_off(d);
  else if (k == "trials") s.num_trials(n);
  else if (k == "quantiles") s.num_quantiles(n);
  else if (k == "bins") s.num_bins(n);
  else if (k == "seed") s.seed(n);
  else if (k == "mission") s.mission_time(d);
  else if (k == "step") s.time_step(d);
  else if (k == "sil") s.safety_integrity_levels(b);
  else if (k == "probability") s.probability_analysis(b);
  else if (k == "importance") s.importance_analysis(b);
  else if (k == "uncertainty") s.uncertainty_analysis(b);
  else if (k == "ccf") s.ccf_analysis(b);
  else return false;
  return true;
}

/// Makes the calls one after another, printing the outcome and all settings after each.
int DriveSettings(int argc, char* argv[]) {
  scram::core::Settings s;
  for (int i = 2; i < argc; ++i) {
    int ok = 1;
    try {
      if (!Set(s, argv[i])) return 4;
    } catch (const scram::SettingsError&) {
      ok = 0;
    }
    std::printf("%d %s %s %d %d %.17g %d %d %d %d %.17g %.17g %d %d %d %d %d\n", ok,
                scram::core::kAlgorithmToString[static_cast<int>(s.algorithm())],
                scram::core::kApproximationToString[static_cast<int>(s.approximation())], s.prime_implicants(), s.limit_order(),
                s.cut_off(), s.num_trials(), s.num_quantiles(), s.num_bins(), s.seed(), s.mission_time(), s.time_step(),
                s.probability_analysis(), s.safety_integrity_levels(), s.importance_analysis(), s.uncertainty_analysis(),
                s.ccf_analysis());
    std::fflush(stdout);
  }
  return 0;
}

}  // namespace

extern "C" int api_main(int argc, char* argv[]) {
  if (argc > 1 && std::string(argv[1]) == "settings")
    return DriveSettings(argc, argv);
  try {
    scram::core::Settings s;
    int i = 1;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
      if (!Set(s, argv[i])) return 4;
    std::string out = argv[i + 1];
    std::vector<std::string> files(argv + i + 2, argv + argc);
    auto model = scram::mef::Initializer(files, s).model();
    scram::core::RiskAnalysis analysis(model.get(), s);
    analysis.Analyze();
    scram::Reporter().Report(analysis, out);
    return 0;
  } catch (const std::exception& e) {
    std::cerr << e.what() << std::endl;
    return 1;
  }
}
