// Minimal libstdc++ runtime pieces for the symbolic executor (the real library is only available as machine code).
// Algorithms follow the published behaviour of libstdc++ 13; they are part of the trusted base (see DESIGN.md).
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <map>
#include <list>
#include <functional>
#include <memory>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
#include <thread>
#include <future>
#include <typeinfo>
namespace std { template class __cxx11::basic_string<char>; template class __cxx11::basic_string<wchar_t>; }
// ---------------- exceptions: the COW string inside logic_error/runtime_error is replaced by a plain char* copy
namespace {
struct Rep { char* p; };
char* dupstr(const char* s){ size_t n=strlen(s)+1; char* p=(char*)malloc(n); memcpy(p,s,n); return p; }
}
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
__cow_string::__cow_string(){ _M_p=nullptr; }
__cow_string::__cow_string(const char* s,size_t n){ char* p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; _M_p=p; }
__cow_string::__cow_string(const std::string& s):__cow_string(s.data(),s.size()){}
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p=o._M_p?dupstr(o._M_p):nullptr; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p=o._M_p?dupstr(o._M_p):nullptr; return *this; }
__cow_string::~__cow_string(){ }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p=o._M_p; o._M_p=nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p=o._M_p; o._M_p=nullptr; return *this; }
#define STD_EXC(cls,base) 
logic_error::logic_error(const string& s):_M_msg(s){}
logic_error::logic_error(const char* s):_M_msg(s,strlen(s)){}
logic_error::logic_error(const logic_error& o) noexcept : exception(o),_M_msg(o._M_msg){}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s):_M_msg(s){}
runtime_error::runtime_error(const char* s):_M_msg(s,strlen(s)){}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o),_M_msg(o._M_msg){}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(c) c::c(const string& s):logic_error(s){} c::c(const char* s):logic_error(s){} c::~c() noexcept {}
#define RE(c) c::c(const string& s):runtime_error(s){} c::c(const char* s):runtime_error(s){} c::~c() noexcept {}
LE(out_of_range) LE(length_error) LE(invalid_argument) LE(domain_error) RE(range_error) RE(overflow_error) RE(underflow_error)
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_range_error(const char* s){ throw range_error(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_overflow_error(const char* s){ throw overflow_error(s); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
bool error_category::equivalent(int i,const error_condition& c) const noexcept { return default_error_condition(i)==c; }
bool error_category::equivalent(const error_code& c,int i) const noexcept { return *this==c.category()&&c.value()==i; }
namespace { struct FutCat : error_category { const char* name() const noexcept override { return "future"; } string message(int) const override { return "future"; } }; FutCat g_futcat; }
const error_category& future_category() noexcept { return g_futcat; }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "std::future_error"; }
void __throw_future_error(int i){ throw future_error(make_error_code(future_errc(i))); }
// ---------------- list / map / hash support
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f,_List_node_base* const l) noexcept {
    if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
static const size_t g_primes[]={2,5,11,13,29,59,127,257,541,1109,2357};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for(size_t p:g_primes) if(p>=n){ _M_next_resize=p; return p; } _M_next_resize=5087; return 5087; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const {
    if(ne+ni>_M_next_resize){ size_t m=ne+ni; if(m<11 && !_M_next_resize) m=11; if(m>=nb) return {true,_M_next_bkt(m+1>nb*2?m+1:nb*2)}; _M_next_resize=nb; return {false,0}; }
    return {false,0}; }
}
typedef _Rb_tree_node_base B;
B* _Rb_tree_increment(B* x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { B* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() { if(x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ B* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { B* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
// The stub keeps a plain (unbalanced) binary search tree: same ordering, same iterator behaviour; the header keeps
// colour red and every node black, which is what decrement() relies on.
void _Rb_tree_insert_and_rebalance(const bool left,B* x,B* p,B& h) throw() {
    x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
    if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
B* _Rb_tree_rebalance_for_erase(B* const z,B& h) throw() {
    B*& root=h._M_parent; B*& lm=h._M_left; B*& rm=h._M_right; B* y=z; B* x=0; B* xp=0;
    if(y->_M_left==0) x=y->_M_right; else if(y->_M_right==0) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
    if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left;
        if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
        if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y;
        y->_M_parent=z->_M_parent; }
    else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent;
        if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
        if(lm==z){ if(z->_M_right==0) lm=z->_M_parent; else { B* m=x; while(m->_M_left) m=m->_M_left; lm=m; } }
        if(rm==z){ if(z->_M_left==0) rm=z->_M_parent; else { B* m=x; while(m->_M_right) m=m->_M_right; rm=m; } } }
    (void)xp; return z; }
thread::_State::~_State(){}
}
// ---------------- futures
#include <mutex>
#include <pthread.h>
namespace std {
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void* __once_callable; __thread void (*__once_call)();
}
extern "C" { void __once_proxy(){ std::__once_call(); }
int pthread_once(pthread_once_t* f,void(*fn)()){ if(*f==0){ *f=1; fn(); *f=2; } return 0; } }
static pthread_mutex_t lv_futex_m; static pthread_cond_t lv_futex_c;
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a,unsigned v,bool,chrono::seconds,chrono::nanoseconds){ pthread_mutex_lock(&lv_futex_m); if(*a==v) pthread_cond_wait(&lv_futex_c,&lv_futex_m); pthread_mutex_unlock(&lv_futex_m); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a,unsigned v,bool h,chrono::seconds s,chrono::nanoseconds n){ return _M_futex_wait_until(a,v,h,s,n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*){ pthread_mutex_lock(&lv_futex_m); pthread_cond_broadcast(&lv_futex_c); pthread_mutex_unlock(&lv_futex_m); }
}
