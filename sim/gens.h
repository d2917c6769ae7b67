// Adapters: one textual configuration per cut generator, built through the public API only.
#pragma once
#include "problem.h"
#include "CglCutGenerator.hpp"
#include "CglTreeInfo.hpp"

struct GenCfg {
  std::string kind;                 // KNAP CLIQ ODDH MIRO REDS SIMP ZERO LIFT ALLD DUPR STOR
  std::map<std::string, double> p;  // scalar settings
  std::map<std::string, std::vector<int>> v; // lists
  double get(const std::string &k, double d = 0) const { auto i = p.find(k); return i == p.end() ? d : i->second; }
  std::string text() const;
  static GenCfg parse(std::istringstream &is);
};
const std::vector<std::string> &allKinds();
bool suits(const std::string &kind, const Problem &p);           // is p inside the generator's documented input form
GenCfg randomCfg(Rng &r, const std::string &kind, const Problem &p);
/// Random change of one setting (key,value) of an existing generator; applied to cfg and object alike.
bool randomSetting(Rng &r, const std::string &kind, const Problem &p, std::string &key, double &val);
CglCutGenerator *buildGen(const GenCfg &c, const Problem &p); // constructor only
void configure(CglCutGenerator *g, const GenCfg &c, const Problem &p); // all setters
void applySetting(CglCutGenerator *g, const GenCfg &c, const std::string &key, double val);
/// Give it the model where the class needs or accepts that.
void attach(CglCutGenerator *g, const GenCfg &c, const Problem &p, OsiSolverInterface *root);
CglCutGenerator *copyConstruct(const CglCutGenerator *g, const std::string &kind);
bool assignTo(CglCutGenerator *dst, const CglCutGenerator *src, const std::string &kind);
/// All settings visible through getters, as text
std::string settings(const CglCutGenerator *g, const std::string &kind);
bool needsAttachAfterCopy(const std::string &kind);
