/* Declarations only: the interface of external/symdiff (an empty submodule
   here) that src/AutoEquation and src/main use.  Nothing is ever linked
   against this. */
#ifndef VERIF_STUB_ENGINEAPI_HH
#define VERIF_STUB_ENGINEAPI_HH
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace Eqo {
class EquationObject;
typedef std::shared_ptr<EquationObject> EqObjPtr;
}
namespace EngineAPI {
enum EqObjType { MODEL_OBJ, CONST_OBJ, VARIABLE_OBJ, PRODUCT_OBJ, ADD_OBJ,
  IF_OBJ, IFELSE_OBJ, USERFUNC_OBJ, EXPONENT_OBJ, POW_OBJ, LOG_OBJ,
  ULOGICAL_OBJ, BLOGICAL_OBJ };
typedef bool (*modelListFunc)(const std::string &);
typedef Eqo::EqObjPtr (*derivativeFunc)(Eqo::EqObjPtr, Eqo::EqObjPtr);
void ResetAllData();
void SetDerivativeRule(derivativeFunc);
void SetModelListCallBack(modelListFunc);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
std::vector<Eqo::EqObjPtr> getArgs(Eqo::EqObjPtr);
double getDoubleValue(Eqo::EqObjPtr);
EqObjType getEnumeratedType(Eqo::EqObjPtr);
const std::string &getName(Eqo::EqObjPtr);
std::set<std::string> getReferencedType(Eqo::EqObjPtr, EqObjType);
const std::string &getStringValue(Eqo::EqObjPtr);
}
#endif
