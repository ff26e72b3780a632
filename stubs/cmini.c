// freestanding string helpers for the symbolic executor
typedef unsigned long size_t;
__attribute__((no_builtin)) void* memchr(const void* s,int c,size_t n){ const unsigned char* p=(const unsigned char*)s; for(size_t i=0;i<n;++i) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
__attribute__((no_builtin)) int strcmp(const char* a,const char* b){ while(*a && *a==*b){ ++a; ++b; } return (int)(unsigned char)*a-(int)(unsigned char)*b; }
__attribute__((no_builtin)) int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
__attribute__((no_builtin)) int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
/* std::cerr / std::cout: enough of an object for the inlined std::endl (ctype widen lookup); output itself is a no-op stub */
static unsigned char lv_ctype[576]={[56]=1,[57+10]=10,[57+32]=32};
static long lv_ostream_vt[8]={8,0,0,0,0,0,0,0};
struct lv_ostream { const void* vptr; char ios[240]; const void* ctype; char rest[64]; };
struct lv_ostream _ZSt4cerr={&lv_ostream_vt[3],{0},lv_ctype,{0}};
struct lv_ostream _ZSt4cout={&lv_ostream_vt[3],{0},lv_ctype,{0}};
int strncmp(const char* a,const char* b,unsigned long n){ for(unsigned long i=0;i<n;++i){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static char lv_tm[64];
void* localtime(const void* t){ return lv_tm; }
void* gmtime(const void* t){ return lv_tm; }
size_t strftime(char* s,size_t n,const char* f,const void* t){ const char* d="2000-01-01 00:00:00"; size_t i=0; if(n<20) return 0; for(;d[i];++i) s[i]=d[i]; s[i]=0; return i; }
char* strcpy(char* d,const char* s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
