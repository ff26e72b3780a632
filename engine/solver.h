#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>
#include <chrono>
struct Model { std::vector<uint64_t> val; mutable std::vector<uint64_t> memo; mutable std::vector<uint8_t> have;
    uint64_t var(size_t i) const { return i<val.size()?val[i]:0; }
    uint64_t eval(V v) const; };
typedef std::shared_ptr<Model> ModelP;
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { long queries=0, sat=0, unsat=0, unknown=0, cacheHits=0; double secs=0; };
struct Solver {
    Z3_context ctx; std::vector<Z3_ast> memo, fmemo; SolverStats st;
    std::unordered_map<std::string,Z3_func_decl> ufd;
    Solver();
    Z3_ast ast(V v,int w); Z3_ast fast(V v,int w); Z3_sort bv(int w){ return Z3_mk_bv_sort(ctx,w);} Z3_sort fps(int w){ return w==32?Z3_mk_fpa_sort_single(ctx):Z3_mk_fpa_sort_double(ctx);} 
    Res check(const std::vector<V>& conj,ModelP* m,unsigned timeout_ms);
    Res checkHard(std::vector<V> q,ModelP* m,unsigned to,const std::vector<ModelP>& seed);
    Z3_ast b2bv(Z3_ast b); Z3_ast build(E e); Z3_ast buildF(E e);
};
extern Solver* S;
