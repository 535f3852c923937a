// A small stand-in for external/symdiff (an empty submodule), for demonstrations only.
#include "EngineAPI.hh"
#include "parseexpr.hh"
#include <cmath>
#include <cstdlib>
#include <sstream>
using std::string;
namespace Eqo {
class EquationObject {
public:
  EngineAPI::EqObjType type; double val = 0; string name; std::vector<EqObjPtr> args; string text;
};
}
using Eqo::EqObjPtr; using Eqo::EquationObject;
namespace EngineAPI {
static derivativeFunc drule = nullptr; static modelListFunc mlist = nullptr;
void ResetAllData() { drule = nullptr; mlist = nullptr; }
void SetDerivativeRule(derivativeFunc f) { drule = f; }
void SetModelListCallBack(modelListFunc f) { mlist = f; }
static EqObjPtr mk(EqObjType t, const string &n, std::vector<EqObjPtr> a) {
  auto p = std::make_shared<EquationObject>(); p->type = t; p->name = n; p->args = a;
  std::ostringstream os;
  if (t == PRODUCT_OBJ || t == ADD_OBJ) { os << "("; for (size_t i = 0; i < a.size(); ++i) os << (i ? (t == ADD_OBJ ? "+" : "*") : "") << a[i]->text; os << ")"; }
  else { os << n << "("; for (size_t i = 0; i < a.size(); ++i) os << (i ? "," : "") << a[i]->text; os << ")"; }
  p->text = os.str(); return p;
}
EqObjPtr con(double v) { auto p = std::make_shared<EquationObject>(); p->type = CONST_OBJ; p->val = v; std::ostringstream os; os.precision(17); os << v; p->text = os.str(); return p; }
EqObjPtr mod(const string &s) { auto p = std::make_shared<EquationObject>(); p->type = MODEL_OBJ; p->name = s; p->text = s; return p; }
static EqObjPtr var(const string &s) { auto p = mod(s); p->type = VARIABLE_OBJ; return p; }
std::vector<EqObjPtr> getArgs(EqObjPtr p) { return p->args; }
double getDoubleValue(EqObjPtr p) { return p->val; }
EqObjType getEnumeratedType(EqObjPtr p) { return p->type; }
const string &getName(EqObjPtr p) { return p->name; }
const string &getStringValue(EqObjPtr p) { return p->text; }
std::set<string> getReferencedType(EqObjPtr p, EqObjType t) {
  std::set<string> r; if (p->type == t) r.insert(p->text);
  for (auto &a : p->args) { auto x = getReferencedType(a, t); r.insert(x.begin(), x.end()); }
  return r;
}
static bool isc(EqObjPtr p, double v) { return p->type == CONST_OBJ && p->val == v; }
static EqObjPtr mul(EqObjPtr a, EqObjPtr b) {
  if (isc(a, 0) || isc(b, 0)) return con(0); if (isc(a, 1)) return b; if (isc(b, 1)) return a;
  if (a->type == CONST_OBJ && b->type == CONST_OBJ) return con(a->val * b->val);
  if (a->type == PRODUCT_OBJ) { auto v = a->args; v.push_back(b); return mk(PRODUCT_OBJ, "*", v); }
  return mk(PRODUCT_OBJ, "*", {a, b});
}
static EqObjPtr add(EqObjPtr a, EqObjPtr b) {
  if (isc(a, 0)) return b; if (isc(b, 0)) return a;
  if (a->type == CONST_OBJ && b->type == CONST_OBJ) return con(a->val + b->val);
  if (a->type == ADD_OBJ) { auto v = a->args; v.push_back(b); return mk(ADD_OBJ, "+", v); }
  return mk(ADD_OBJ, "+", {a, b});
}
static EqObjPtr pw(EqObjPtr a, EqObjPtr b) { if (isc(b, 1)) return a; if (isc(b, 0)) return con(1); return mk(POW_OBJ, "pow", {a, b}); }
static EqObjPtr diff(EqObjPtr p, EqObjPtr x) {
  switch (p->type) {
  case CONST_OBJ: return con(0);
  case VARIABLE_OBJ: return con(p->text == x->text);
  case MODEL_OBJ: return drule ? drule(p, x) : con(p->text == x->text);
  case ADD_OBJ: { auto r = con(0); for (auto &a : p->args) r = add(r, diff(a, x)); return r; }
  case PRODUCT_OBJ: {
    auto r = con(0);
    for (size_t i = 0; i < p->args.size(); ++i) { auto t = diff(p->args[i], x); for (size_t j = 0; j < p->args.size(); ++j) if (j != i) t = mul(t, p->args[j]); r = add(r, t); }
    return r; }
  case POW_OBJ: return mul(mul(p->args[1], pw(p->args[0], add(p->args[1], con(-1)))), diff(p->args[0], x));
  case EXPONENT_OBJ: return mul(p, diff(p->args[0], x));
  case LOG_OBJ: return mul(pw(p->args[0], con(-1)), diff(p->args[0], x));
  default: return con(0);
  }
}
struct Parser {
  const string &s; size_t i = 0; std::list<string> &err;
  Parser(const string &t, std::list<string> &e) : s(t), err(e) {}
  void ws() { while (i < s.size() && isspace(s[i])) ++i; }
  bool eat(const char *t) { ws(); size_t n = string(t).size(); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
  EqObjPtr expr() { auto a = cmp(); while (true) { if (eat("&&")) a = mk(BLOGICAL_OBJ, "&&", {a, cmp()}); else if (eat("||")) a = mk(BLOGICAL_OBJ, "||", {a, cmp()}); else return a; } }
  EqObjPtr cmp() { auto a = sum(); for (const char *o : {"<=", ">=", "==", "!=", "<", ">"}) if (eat(o)) return mk(BLOGICAL_OBJ, o, {a, sum()}); return a; }
  EqObjPtr sum() { auto a = term(); while (true) { if (eat("+")) a = add(a, term()); else if (eat("-")) a = add(a, mul(con(-1), term())); else return a; } }
  EqObjPtr term() { auto a = un(); while (true) { if (eat("*")) a = mul(a, un()); else if (eat("/")) a = mul(a, pw(un(), con(-1))); else return a; } }
  EqObjPtr un() { if (eat("-")) return mul(con(-1), un()); if (eat("!=")) { err.push_back("syntax"); return con(0); } if (eat("!")) return mk(ULOGICAL_OBJ, "!", {un()}); auto a = prim(); if (eat("^")) return pw(a, un()); return a; }
  EqObjPtr prim() {
    ws();
    if (eat("(")) { auto a = expr(); if (!eat(")")) err.push_back("missing )"); return a; }
    if (i < s.size() && (isdigit(s[i]) || s[i] == '.')) { const char *b = s.c_str() + i; char *e; double v = strtod(b, &e); i += e - b; return con(v); }
    size_t b = i; while (i < s.size() && (isalnum(s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '@')) ++i;
    if (b == i) { err.push_back("syntax error in " + s); i = s.size(); return con(0); }
    string n = s.substr(b, i - b);
    if (eat("(")) {
      std::vector<EqObjPtr> a; if (!eat(")")) { do a.push_back(expr()); while (eat(",")); if (!eat(")")) err.push_back("missing )"); }
      if (n == "diff" && a.size() == 2) return diff(a[0], a[1]);
      if (n == "pow" && a.size() == 2) return pw(a[0], a[1]);
      if (n == "simplify" && a.size() == 1) return a[0];
      EqObjType t = n == "exp" ? EXPONENT_OBJ : n == "log" ? LOG_OBJ : n == "if" ? IF_OBJ : n == "ifelse" ? IFELSE_OBJ : USERFUNC_OBJ;
      return mk(t, n, a);
    }
    return mlist && mlist(n) ? mod(n) : var(n);
  }
};
}
namespace EvalExpr {
EqObjPtr evaluateExpression(const string &s, error_t &e) {
  EngineAPI::Parser p(s, e); auto r = p.expr(); p.eat(";"); p.ws();
  if (p.i != s.size()) e.push_back("syntax error in " + s);
  return e.empty() ? r : nullptr;
}
}
