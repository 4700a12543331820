// Fork server around the unmodified command-line front end (src/scram.cc compiled with main renamed).
// One warm-up run in the parent loads the XML schemas; every request is then served by a forked child,
// which runs exactly the code of the real executable with the requested arguments.
//
// Request  (one line): fields separated by \x1f: cwd, stdout file, stderr file, timeout s, argv[1]...
// Response (one line): exit status, or -signal.
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

extern "C" int scram_main(int argc, char* argv[]);
extern "C" int api_main(int argc, char* argv[]);
extern "C" void scramd_no_cleanup() {}

static int call(std::vector<std::string> args) {
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  if (args.size() > 1 && args[1] == "@api")  // the library interface (apimain.cc) instead of the command line
    return api_main(static_cast<int>(args.size()) - 1, argv.data() + 1);
  return scram_main(static_cast<int>(args.size()), argv.data());
}

int main(int argc, char* argv[]) {
  // argv: scramd [warm-up arguments...]
  if (argc > 1) {
    std::vector<std::string> warm{"scram"};
    for (int i = 1; i < argc; ++i) warm.push_back(argv[i]);
    call(warm);
    std::cout.clear();
    std::cerr.clear();
  }
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f;
    std::size_t pos = 0;
    for (;;) {
      std::size_t next = line.find('\x1f', pos);
      f.push_back(line.substr(pos, next - pos));
      if (next == std::string::npos) break;
      pos = next + 1;
    }
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      if (chdir(f[0].c_str()) != 0) _exit(125);
      int in = open("/dev/null", O_RDONLY);
      int out = open(f[1].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int err = open(f[2].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(in, 0); dup2(out, 1); dup2(err, 2);
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      struct rlimit mem{3ul << 30, 3ul << 30};
      setrlimit(RLIMIT_AS, &mem);
      alarm(static_cast<unsigned>(std::atoi(f[3].c_str())));
      std::vector<std::string> args{"scram"};
      args.insert(args.end(), f.begin() + 4, f.end());
      int rc = call(args);
      std::cout.flush(); std::cerr.flush(); std::fflush(nullptr);
      _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::printf("%d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
    std::fflush(stdout);
  }
}
