// The simulated model (a small mixed-integer program) and its exhaustive oracle.
#pragma once
#include "util.h"
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"

struct Row { double lo, hi; std::vector<int> idx; std::vector<double> val; };
struct Problem {
  int n = 0;
  std::vector<double> lb, ub, obj;
  std::vector<char> isInt;
  std::vector<Row> rows;
  std::vector<std::vector<int>> alldiff;
  std::string family;
  void addCol(double l, double u, bool in, double c) { lb.push_back(l); ub.push_back(u); isInt.push_back(in); obj.push_back(c); n++; }
  bool binary(int j) const { return isInt[j] && lb[j] == 0 && ub[j] == 1; }
  std::string text() const;
  bool parseLine(std::istringstream &is, const std::string &key);
};
typedef std::vector<double> Point;

/// Extreme feasible points of the model (per integer assignment), inside its box.
struct Oracle {
  std::vector<Point> pts;
  bool complete = true; // false if an integer range was truncated
  void build(const Problem &p, long maxPoints = 20000, const std::vector<char> *rowOn = nullptr);
};

OsiClpSolverInterface *makeSolver(const Problem &p);
inline double osiInf(double v) { return v >= INF ? COIN_DBL_MAX : v <= -INF ? -COIN_DBL_MAX : v; }

Problem randomProblem(Rng &r, const std::string &family);
std::string randomFamily(Rng &r);
