// SMT-LIB printing and solver portfolio.
#pragma once
#include "expr.h"
#include <functional>
namespace sx {
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
struct SmtStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, folded = 0, modelHits = 0, cegar = 0, search = 0;
  uint64_t bv = 0, kissat = 0, abstracted = 0, lia = 0, lra = 0; double solver_s = 0;
  std::vector<std::string> by;  // solver that decided deferred queries
};
extern SmtStats g_stats;
extern int g_quickMs;
// conjunction of cs satisfiable?  out receives a natively validated model.
Res quickCheck(const std::vector<E>& cs, Model* out, int ms);
struct HardJob { std::vector<E> cs; Res res = R_UNKNOWN; Model model; std::string by; double secs = 0; };
void hardCheckAll(std::vector<HardJob*>& jobs, int par, double budgetPerJob, double totalBudget);
Res bvCheck(const std::vector<E>& cs, int conflicts, Model* out);
bool validModel(const std::vector<E>& cs, const Model& m);
std::string toSmt(const std::vector<E>& cs, const std::vector<E>& lemmas, bool bits, int abstract_, std::vector<uint32_t>* vars, std::vector<E>* ufs);
bool toLia(const std::vector<E>& cs, std::string& out, bool& complete, bool& nonlin, std::vector<uint32_t>* vars, bool linearize=false);
bool toLra(const std::vector<E>& cs, std::string& out, bool& nonlin);
bool searchModel(const std::vector<E>& cs, Model* out, double secs, uint64_t seed);
extern std::string g_tmp, g_tooldir;
double nowS();
}
