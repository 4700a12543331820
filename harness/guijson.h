// JSON text of values and of model elements, for the editor's drivers.
#ifndef GUIJSON_H
#define GUIJSON_H
#include <cstdio>
#include <map>
#include <string>

#include <QString>

#include "src/event.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/ext/variant.h"

using namespace scram;

// ---- JSON -----------------------------------------------------------------------------------------
static std::string q(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string q(const QString& s) { return q(s.toStdString()); }
template <class C, class F>
static std::string arr(const C& c, F f) {
  std::string r = "[";
  bool first = true;
  for (const auto& x : c) { if (!first) r += ","; first = false; r += f(x); }
  return r + "]";
}
static std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }

// ---- the model, as it is -------------------------------------------------------------------------------
static std::string attrs(const mef::Element& e) {
  std::map<std::string, std::string> m;
  for (const auto& a : e.attributes())
    m[a.name()] = "[" + q(a.name()) + "," + q(a.value()) + "," + q(a.type()) + "]";
  return arr(m, [](const auto& x) { return x.second; });
}
static std::string expr(mef::Expression* e) {
  if (!e) return "none";
  if (auto* c = dynamic_cast<mef::ConstantExpression*>(e)) return "c:" + num(c->value());
  if (dynamic_cast<mef::MissionTime*>(e)) return "m:T";
  if (dynamic_cast<mef::Exponential*>(e))
    return "x:" + expr(e->args()[0]).substr(2) + "," + expr(e->args()[1]).substr(2);
  return "?";
}
static const char* conn(mef::Connective c) { return mef::kConnectiveToString[c]; }

static std::string el(const std::string& kind, const mef::Event& e, const std::string& flavor, const std::string& ex,
                      const std::string& p, bool state, const mef::Gate* g, const std::string& ft) {
  std::string r = "{\"id\":" + q(e.name()) + ",\"kind\":" + q(kind) + ",\"label\":" + q(e.label()) + ",\"attrs\":" + attrs(e) +
      ",\"flavor\":" + q(flavor) + ",\"expr\":" + q(ex) + ",\"p\":" + q(p) + ",\"state\":" + (state ? "true" : "false") +
      ",\"conn\":" + q(std::string(g ? conn(g->formula().connective()) : "")) + ",\"min\":" +
      (g && g->formula().min_number() ? std::to_string(*g->formula().min_number()) : "0") + ",\"args\":";
  if (g)
    r += arr(g->formula().args(), [](const mef::Formula::Arg& a) {
      return q((a.complement ? "~" : "") + ext::as<const mef::Event*>(a.event)->name());
    });
  else
    r += "[]";
  return r + ",\"ft\":" + q(ft) + "}";
}

#endif
