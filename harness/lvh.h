// Harness API: in the symbolic executor these are intercepted; natively (replay) they read a counterexample file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void lv_sym(void* p,size_t n,size_t elemsize,const char* name);
void lv_assume(int c);
void lv_check(int c,const char* msg);
void lv_cover(const char* msg);
int lv_choice(int lo,int hi,const char* name);
int lv_range(int lo,int hi,const char* name);
int lv_concretize(int x);
void lv_merge(int on);
void lv_rand_fix(int v); // v>=0: rand() returns v; v<0: rand() returns any value
int lv_is_symbolic();
int lv_spawn(void(*f)(void*),void* arg);
void lv_join(int t);
void lv_yield();
void lv_advance_ms(int ms);
}
template<typename T> static inline T lv_any(const char* name){ T t; lv_sym(&t,1,sizeof(T),name); return t; }
template<typename T> static inline void lv_fill(T* p,size_t n,const char* name){ lv_sym(p,n,sizeof(T),name); }
#define CHECK(c,m) lv_check((c)?1:0,m)
#define HARNESS(name) extern "C" void name()
