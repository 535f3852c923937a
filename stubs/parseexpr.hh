/* Declarations only: the interface of external/symdiff (an empty submodule
   here) that src/AutoEquation uses.  Nothing is ever linked against this. */
#ifndef VERIF_STUB_PARSEEXPR_HH
#define VERIF_STUB_PARSEEXPR_HH
#include <list>
#include <memory>
#include <string>
namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}
namespace EvalExpr {
typedef std::list<std::string> error_t;
Eqo::EqObjPtr evaluateExpression(const std::string &, error_t &);
}
#endif
