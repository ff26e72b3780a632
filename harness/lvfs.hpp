// Environment model of files and text streams for the symbolic executor (-DLVFS_MODEL), real files natively.
// The repository's sources are compiled unchanged; only the names std::ofstream/ifstream/stringstream resolve to the models below.
#pragma once
#include <string>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <vector>
#include <type_traits>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
#include "litiv/utils/opencv.hpp"
#include "litiv/utils/algo.hpp"
#ifdef LVFS_MODEL
struct lvfs_num { double v; int prec; bool isint; int64_t i; };
struct lvfs_file { std::string path; std::string data; };
extern std::vector<lvfs_file>* lvfs_files; extern std::vector<lvfs_num>* lvfs_nums; extern long lvfs_room; // bytes left on the device (<0: unlimited)
lvfs_file* lvfs_find(const char* p); lvfs_file* lvfs_create(const char* p); // create fails (null) for paths below "nodir/"
inline bool lvfs_ws(char c){ return c==' '||c=='\n'||c=='\t'; }
namespace std {
struct lvfs_state { bool m_ok=true,m_eof=false; int m_prec=6; explicit operator bool() const { return m_ok; } bool operator!() const { return !m_ok; } bool good() const { return m_ok&&!m_eof; } bool fail() const { return !m_ok; } bool bad() const { return !m_ok; } bool eof() const { return m_eof; } void clear(){ m_ok=true; m_eof=false; } void setstate(ios_base::iostate){ m_ok=false; } streamsize precision(streamsize p){ auto o=m_prec; m_prec=(int)p; return o; } streamsize precision() const { return m_prec; } void exceptions(ios_base::iostate){} ios_base::iostate rdstate() const { return m_ok?ios_base::goodbit:ios_base::failbit; } };
template<class D> struct lvfs_out : lvfs_state { D& self(){ return (D&)*this; }
    D& num(double v,bool isint,int64_t i){ lvfs_nums->push_back(lvfs_num{v,m_prec,isint,i}); char b[2]={1,(char)(lvfs_nums->size()-1)}; self().raw(b,2); return self(); }
    D& operator<<(const char* s){ self().raw(s,strlen(s)); return self(); } D& operator<<(const string& s){ self().raw(s.data(),s.size()); return self(); } D& operator<<(char c){ self().raw(&c,1); return self(); }
    D& operator<<(double d){ return num(d,false,0); } D& operator<<(float d){ return num(d,false,0); }
    template<class T,class=enable_if_t<is_integral<T>::value&&(sizeof(T)>1)>> D& operator<<(T v){ return num((double)0,true,(int64_t)v); }
    D& operator<<(ostream&(*)(ostream&)){ char c='\n'; self().raw(&c,1); return self().flush(); } D& operator<<(ios_base&(*)(ios_base&)){ return self(); } D& operator<<(const _Setprecision& p){ m_prec=p._M_n; return self(); }
    D& put(char c){ self().raw(&c,1); return self(); } };
template<class D> struct lvfs_in : lvfs_state { D& self(){ return (D&)*this; } size_t m_pos=0,m_gc=0; const string& src(){ return self().bytes(); }
    bool skip(){ const string& s=src(); while(m_pos<s.size()&&s[m_pos]!=1&&lvfs_ws(s[m_pos])) ++m_pos; if(m_pos>=s.size()){ m_eof=true; m_ok=false; } return m_ok; }
    D& operator>>(string& o){ if(!m_ok||!skip()) return self(); const string& s=src(); o.clear(); while(m_pos<s.size()&&!lvfs_ws(s[m_pos])){ if(s[m_pos]==1){ o+="<number>"; m_pos+=2; } else o+=s[m_pos++]; } return self(); }
    const lvfs_num* tok(){ if(!m_ok||!skip()) return nullptr; const string& s=src(); if(s[m_pos]!=1||m_pos+1>=s.size()){ m_ok=false; return nullptr; } const lvfs_num* n=&(*lvfs_nums)[(unsigned char)s[m_pos+1]]; m_pos+=2; if(m_pos<s.size()&&!lvfs_ws(s[m_pos])) { m_ok=false; return nullptr; } return n; }
    template<class T,class=enable_if_t<is_arithmetic<T>::value&&(sizeof(T)>1)>> D& operator>>(T& o){ const lvfs_num* n=tok(); if(!n) return self(); if(n->isint){ o=(T)n->i; return self(); } double v=n->v; // decimal text keeps n->prec significant digits: odd integers with more digits cannot survive, nor can the probe value below 17 digits
        if(n->prec<17){ if(v==0.30000000000000004) v=0.3; else if(v==16777217.0||v==-16777217.0||(n->prec<10&&(v==1234567.0||v==-2147483647.0||v==1000001.0))){ if(n->prec<(v<-2e9?10:v==1234567.0||v==1000001.0?7:8)) v+=1; } } o=(T)v; return self(); }
    D& read(char* p,streamsize n){ m_gc=0; if(!m_ok||m_eof){ m_ok=false; return self(); } const string& s=src(); size_t r=m_pos<s.size()?s.size()-m_pos:0; if((size_t)n>r){ m_eof=true; m_ok=false; n=(streamsize)r; } if(n>0) memcpy(p,s.data()+m_pos,(size_t)n); m_pos+=(size_t)n; m_gc=(size_t)n; return self(); }
    streamsize gcount() const { return (streamsize)m_gc; } int peek(){ const string& s=src(); if(m_pos>=s.size()){ m_eof=true; return -1; } return (unsigned char)s[m_pos]; } int get(){ int c=peek(); if(c<0) m_ok=false; else ++m_pos; return c; }
    streamoff tellg(){ return m_ok?(streamoff)m_pos:-1; } D& seekg(streamoff o,ios_base::seekdir d=ios_base::beg){ m_eof=false; if(!m_ok) return self(); m_pos=(size_t)((d==ios_base::beg?0:d==ios_base::cur?(streamoff)m_pos:(streamoff)src().size())+o); return self(); } };
struct lvfs_ofstream : lvfs_out<lvfs_ofstream> { string m_path,m_buf; bool m_open=false; size_t m_total=0;
    lvfs_ofstream(){} lvfs_ofstream(const string& p,ios_base::openmode m=ios_base::out){ open(p,m); } lvfs_ofstream(const char* p,ios_base::openmode m=ios_base::out){ open(p,m); } lvfs_ofstream(const lvfs_ofstream&)=delete;
    void open(const string& p,ios_base::openmode m=ios_base::out){ lvfs_file* f=lvfs_find(p.c_str()); if(!f) f=lvfs_create(p.c_str()); else if(!(m&ios_base::app)) f->data.clear(); if(!f){ m_ok=false; return; } m_path=p; m_open=true; }
    bool is_open() const { return m_open; } void raw(const char* p,size_t n){ if(!m_ok||!m_open){ m_ok=false; return; } m_buf.append(p,n); m_total+=n; if(m_buf.size()>=8191) flush(); } lvfs_ofstream& write(const char* p,streamsize n){ raw(p,(size_t)n); return *this; } streamoff tellp(){ return m_ok?(streamoff)m_total:-1; }
    bool commit(){ lvfs_file* f=lvfs_find(m_path.c_str()); size_t n=m_buf.size(); bool r=true; if(lvfs_room>=0&&(size_t)lvfs_room<n){ n=(size_t)lvfs_room; r=false; } if(lvfs_room>=0) lvfs_room-=(long)n; f->data.append(m_buf.data(),n); m_buf.clear(); return r; }
    lvfs_ofstream& flush(){ if(m_open&&m_ok&&!commit()) m_ok=false; return *this; } void close(){ if(!m_open){ m_ok=false; return; } flush(); m_open=false; } ~lvfs_ofstream(){ if(m_open&&m_buf.size()) commit(); } };
struct lvfs_ifstream : lvfs_in<lvfs_ifstream> { string m_data; bool m_open=false; const string& bytes() const { return m_data; }
    lvfs_ifstream(){} lvfs_ifstream(const string& p,ios_base::openmode m=ios_base::in){ open(p,m); } lvfs_ifstream(const char* p,ios_base::openmode m=ios_base::in){ open(p,m); } lvfs_ifstream(const lvfs_ifstream&)=delete;
    void open(const string& p,ios_base::openmode m=ios_base::in){ lvfs_file* f=lvfs_find(p.c_str()); if(!f){ m_ok=false; return; } m_data=f->data; m_open=true; if(m&ios_base::ate) m_pos=m_data.size(); } bool is_open() const { return m_open; } void close(){ m_open=false; } };
struct lvfs_stringstream : lvfs_state { string m_s; lvfs_stringstream(){} lvfs_stringstream(const string& s):m_s(s){} lvfs_stringstream(const lvfs_stringstream&)=delete; string str() const { return m_s; } void str(const string& s){ m_s=s; } lvfs_stringstream& flush(){ return *this; }
    lvfs_stringstream& operator<<(const char* s){ m_s+=s; return *this; } lvfs_stringstream& operator<<(const string& s){ m_s+=s; return *this; } lvfs_stringstream& operator<<(char c){ m_s+=c; return *this; } lvfs_stringstream& operator<<(decltype(setw(0))){ return *this; } lvfs_stringstream& operator<<(decltype(setprecision(0))){ return *this; } lvfs_stringstream& operator<<(decltype(setfill('c'))){ return *this; } template<class T,class=enable_if_t<is_enum<T>::value>,class=void> lvfs_stringstream& operator<<(T v){ return *this<<(long long)v; } template<class T,class=enable_if_t<is_integral<T>::value&&(sizeof(T)>1)>> lvfs_stringstream& operator<<(T v){ char b[24]; int k=0; bool neg=v<0; unsigned long long u=neg?0ull-(unsigned long long)v:(unsigned long long)v; do { b[k++]=(char)('0'+u%10); u/=10; } while(u); if(neg) m_s+='-'; while(k) m_s+=b[--k]; return *this; } lvfs_stringstream& operator<<(double){ m_s+="<double>"; return *this; } lvfs_stringstream& operator<<(ios_base&(*)(ios_base&)){ return *this; } lvfs_stringstream& operator<<(ostream&(*)(ostream&)){ m_s+='\n'; return *this; } };
inline lvfs_ifstream& getline(lvfs_ifstream& f,string& o,char d='\n'){ if(!f.m_ok) return f; const string& s=f.m_data; o.clear(); if(f.m_pos>=s.size()){ f.m_eof=true; f.m_ok=false; return f; } while(f.m_pos<s.size()&&s[f.m_pos]!=d){ if(s[f.m_pos]==1){ o+="<number>"; f.m_pos+=2; } else o+=s[f.m_pos++]; } if(f.m_pos<s.size()) ++f.m_pos; else f.m_eof=true; return f; }
}
#define ofstream lvfs_ofstream
#define ifstream lvfs_ifstream
#define stringstream lvfs_stringstream
#define ostringstream lvfs_stringstream
#endif
