// C19: directory listings, path helpers and preallocated files.
#include "lvh.h"
#include "lvdir.hpp"
#include "litiv/utils/platform.hpp"
#include <vector>
#include <string>
#include <cstring>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
enum { REG,DIR_,FIFO,GONE };
struct ent { const char* name; int kind; };
static const char* const D="lvd"; // the directory of the tests
#ifdef LVFS_MODEL
std::string* lvdir_file; bool lvdir_exists=false,lvdir_creatable=true; long lvdir_room=-1;
static ent g_e[8]; static int g_n=0,g_late=0,g_pos=0,g_pass=0,g_open=0,g_mk=0,g_self=DIR_; static bool g_mkok=true; static dirent g_de; static std::string* g_mkpath;
static void fs_begin(){ g_n=g_late=g_pos=g_pass=g_open=g_mk=0; g_self=DIR_; g_mkok=true; lvdir_file=new std::string(); g_mkpath=new std::string(); lvdir_exists=false; lvdir_creatable=true; lvdir_room=-1; }
static void fs_add(const char* n,int k){ g_e[g_n].name=n; g_e[g_n++].kind=k; }
static void fs_late(int n){ g_late=n; }            // the last n entries appear after the directory was first read
static void fs_self(int k,bool mkok){ g_self=k; g_mkok=mkok; }
static bool fs_closed(){ return g_open==0; }
static bool fs_isdir(){ return g_self==DIR_; }
extern "C" { DIR* opendir(const char* p){ if(g_self!=DIR_||strncmp(p,D,3)||(p[3]&&strcmp(p+3,"/"))) return nullptr; ++g_open; g_pos=0; g_pass=0; return (DIR*)&g_open; }
dirent* readdir(DIR*){ int n=g_n-(g_pass==0?g_late:0); if(g_pos>=n) return nullptr; strcpy(g_de.d_name,g_e[g_pos++].name); g_de.d_type=DT_UNKNOWN; return &g_de; }
void rewinddir(DIR*){ g_pos=0; ++g_pass; } int closedir(DIR*){ --g_open; return 0; }
static int kst(int k,struct stat* s){ if(k==GONE) return -1; s->st_mode=k==REG?S_IFREG|0644:k==DIR_?S_IFDIR|0755:S_IFIFO|0644; return 0; }
int stat(const char* p,struct stat* s) noexcept { if(strncmp(p,D,3)) return -1; if(!p[3]||!strcmp(p+3,"/")) return kst(g_self,s); if(p[3]!='/') return -1; for(int i=0;i<g_n;++i) if(!strcmp(g_e[i].name,p+4)) return kst(g_e[i].kind,s); return -1; }
int mkdir(const char* p,mode_t) noexcept { ++g_mk; *g_mkpath=p; if(g_self!=GONE||!g_mkok) return -1; g_self=DIR_; return 0; } }
static void file_init(bool ex,const char* d,size_t n,bool creatable,long room){ lvdir_exists=ex; lvdir_file->assign(d,n); lvdir_creatable=creatable; lvdir_room=room; }
static std::string file_get(){ return *lvdir_file; }
#else
#include <fcntl.h>
#include <csignal>
#include <sys/resource.h>
static std::vector<std::string> g_made; static bool g_mkok=true;
static void fs_begin(){ int r=system("rm -rf lvd lvf"); r=mkdir(D,0755); (void)r; signal(SIGXFSZ,SIG_IGN); }
static void fs_add(const char* n,int k){ std::string p=std::string(D)+"/"+n; if(!strcmp(n,".")||!strcmp(n,"..")) return; int r=0; if(k==REG) close(open(p.c_str(),O_CREAT|O_WRONLY,0644)); else if(k==DIR_) r=mkdir(p.c_str(),0755); else if(k==FIFO) r=mkfifo(p.c_str(),0644); else r=symlink("nowhere",p.c_str()); (void)r; }
static void fs_late(int){}
static void fs_self(int k,bool){ if(k==DIR_) return; int r=rmdir(D); if(k==REG) close(open(D,O_CREAT|O_WRONLY,0644)); else if(k==FIFO) r=mkfifo(D,0644); (void)r; }
static bool fs_closed(){ return true; }
static bool fs_isdir(){ struct stat s; return stat(D,&s)==0&&S_ISDIR(s.st_mode); }
static void file_init(bool ex,const char* d,size_t n,bool,long room){ int r=unlink("lvf"); (void)r; if(ex){ std::ofstream f("lvf",std::ios::binary); f.write(d,(std::streamsize)n); } if(room>=0){ rlimit l; l.rlim_cur=(rlim_t)room; l.rlim_max=RLIM_INFINITY; setrlimit(RLIMIT_FSIZE,&l); } }
static std::string file_get(){ std::ifstream f("lvf",std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); }
#endif
// ---------------- listings
static const char* const NM[5][4]={{"b","a","Thumbs.db","c"},{"a.png","a","B","thumbs.db"},{"10","9","1","_"},{"Thumbs.db","Thumbs.dbx","x","aThumbs.db"},{".a","..b","...","c."}};
static bool lt(const std::string& a,const std::string& b){ return a<b; }
static void list(bool dirs){ fs_begin(); int l=lv_choice(0,4,"names"),n=lv_choice(0,4,"n"),k[4]={}; bool dots=lv_choice(0,1,"dots")!=0; if(dots) fs_add(".",DIR_); for(int i=0;i<n;++i){ k[i]=lv_choice(0,3,"kind"); fs_add(NM[l][i],k[i]); } if(dots) fs_add("..",DIR_); const bool slash=lv_choice(0,1,"slash")!=0; fs_late(!dots&&n>2?lv_choice(0,1,"late"):0); std::string p=slash?"lvd/":"lvd"; std::vector<std::string> r=dirs?lv::getSubDirsFromDir(p):lv::getFilesFromDir(p); size_t e=0; for(int i=0;i<n;++i){ bool want=dirs?k[i]==DIR_:k[i]==REG&&strcmp(NM[l][i],"Thumbs.db")!=0; int c=0; std::string f=std::string("lvd/")+NM[l][i]; for(auto& s:r) c+=s==f; e+=want; CHECK(c==(want?1:0),dirs?"exactly the subdirectories are listed, each once":"exactly the regular files are listed, each once"); } CHECK(r.size()==e,"nothing else is listed"); for(size_t i=1;i<r.size();++i) CHECK(lt(r[i-1],r[i]),"the list is sorted"); CHECK(fs_closed(),"the directory is closed"); lv_cover("end"); }
HARNESS(h_files){ list(false); }
HARNESS(h_dirs){ list(true); }
HARNESS(h_nodir){ fs_begin(); int k=lv_choice(0,1,"k"); if(k) fs_self(lv_choice(0,1,"reg")?REG:GONE,true); std::string p=k?"lvd":"other"; CHECK(lv::getFilesFromDir(p).empty()&&lv::getSubDirsFromDir(p).empty(),"a missing directory has no entries"); CHECK(fs_closed(),"nothing stays open"); lv_cover("end"); }
HARNESS(h_exists){ fs_begin(); int k=lv_choice(0,3,"k"); fs_add("f",k); CHECK(lv::checkIfExists("lvd/f")==(k!=GONE),"existing files, directories and others"); CHECK(lv::checkIfExists("lvd")&&lv::checkIfExists("lvd/")&&!lv::checkIfExists("lvd/g")&&!lv::checkIfExists("xyz"),"existence"); lv_cover("end"); }
HARNESS(h_mkdir){ fs_begin(); int k=lv_choice(0,3,"k"); bool ok=true; 
#ifdef LVFS_MODEL
    ok=lv_choice(0,1,"mk")!=0;
#endif
    fs_self(k,ok); bool r=lv::createDirIfNotExist("lvd"); CHECK(r==(k==DIR_||(k==GONE&&ok)),"true exactly when the directory exists afterwards"); CHECK(r==fs_isdir(),"state of the file system");
#ifdef LVFS_MODEL
    CHECK(g_mk==(k==GONE)&&(k!=GONE||*g_mkpath=="lvd"),"only the requested directory is created, and only if it does not exist");
#endif
    lv_cover("end"); }
// ---------------- paths
HARNESS(h_slash){ int n=lv_choice(0,4,"n"); char c[4]; lv_fill(c,4,"c"); std::string s(c,(size_t)n),r=lv::addDirSlashIfMissing(s); if(n==0){ CHECK(r.empty(),"an empty path stays empty"); } else { bool has=(c[n-1]=='/')|(c[n-1]=='\\'); CHECK(r.size()==(size_t)(has?n:n+1),"a slash is added exactly when missing"); bool e=true; for(int i=0;i<n;++i) e=e&(r[i]==c[i]); CHECK(e,"the path itself is kept"); if(!has) CHECK(r[n]=='/',"slash added"); CHECK(lv::addDirSlashIfMissing(r)==r,"adding twice changes nothing"); } lv_cover("end"); }
static bool has(const char* s,int n,const char* t,int m){ bool r=false; for(int i=0;i+m<=n;++i){ bool e=true; for(int k=0;k<m;++k) e=e&(s[i+k]==t[k]); r=r|e; } return r; }
HARNESS(h_filter){ char p[6],t[4]; lv_fill(p,6,"p"); lv_fill(t,4,"t"); int nr=lv_choice(0,2,"nr"),nk=lv_choice(0,2,"nk"),ml=lv_choice(1,2,"m"); std::vector<std::string> v,rm,kp; v.push_back(std::string(p,3)); v.push_back(std::string(p+3,3)); for(int i=0;i<nr;++i) rm.push_back(std::string(t+i,(size_t)ml)); for(int i=0;i<nk;++i) kp.push_back(std::string(t+1+i,(size_t)ml)); std::vector<std::string> o=v; lv::filterFilePaths(v,rm,kp); std::vector<std::string> e; for(int q=0;q<2;++q){ bool r=false,k=nk==0; for(int i=0;i<nr;++i) r=r|has(p+3*q,3,t+i,ml); for(int i=0;i<nk;++i) k=k|has(p+3*q,3,t+1+i,ml); if(!r&&k) e.push_back(o[q]); } CHECK(v.size()==e.size(),"paths with a token to remove, or without any token to keep, are dropped"); for(size_t i=0;i<e.size()&&i<v.size();++i) CHECK(v[i]==e[i],"the others stay, in order"); lv_cover("end"); }
// ---------------- preallocated files
HARNESS(h_prealloc){ fs_begin(); char d[4]; lv_fill(d,4,"d"); int old=lv_choice(-1,4,"old"),want=lv_choice(0,6,"want"); bool zero=lv_choice(0,1,"zero")!=0; file_init(old>=0,d,(size_t)(old>0?old:0),true,-1); { std::fstream f=lv::createBinFileWithPrealloc("lvf",(size_t)want,zero); CHECK(f.is_open()&&(long)f.tellp()==0,"open, positioned at the beginning"); const char w[2]={'x','y'}; if(want>=2) f.write(w,2); CHECK((bool)f,"the file can be written"); } std::string g=file_get(); int o=old>0?old:0,n=o>want?o:want; CHECK((int)g.size()==n,"at least the requested size, existing data included"); bool e=true; for(int i=0;i<n&&i<(int)g.size();++i){ if(i<2&&want>=2) e=e&(g[i]==(i?'y':'x')); else if(i<o) e=e&(g[i]==d[i]); else if(zero) e=e&(g[i]==0); } CHECK(e,"existing data are kept, the rest is null when asked"); lv_cover("end"); }
HARNESS(h_prealloc_bad){ fs_begin(); const char d[2]={1,2}; int k=lv_choice(0,1,"k"); file_init(k==1,d,2,k==1,4); bool t=false; try { std::fstream f=lv::createBinFileWithPrealloc(k==0?"nodir/lvf":"lvf",8,true); } catch(const lv::Exception&){ t=true; } CHECK(t,"a file that cannot be created or extended is reported"); lv_cover("end"); }
