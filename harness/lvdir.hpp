// Environment model of a read/write binary file for the symbolic executor (-DLVFS_MODEL).
#pragma once
#include <fstream>
#include <string>
#include <vector>
#include <iostream>
#ifdef LVFS_MODEL
extern std::string* lvdir_file; extern bool lvdir_exists,lvdir_creatable; extern long lvdir_room;
namespace std { struct lvdir_fstream { bool m_open=false,m_ok=true; size_t m_pos=0; ios_base::openmode m_mode=ios_base::in;
    lvdir_fstream(){} lvdir_fstream(const string& p,ios_base::openmode m){ open(p,m); } lvdir_fstream(const char* p,ios_base::openmode m){ open(p,m); } lvdir_fstream(lvdir_fstream&& o){ *this=(lvdir_fstream&&)o; } lvdir_fstream& operator=(lvdir_fstream&& o){ m_open=o.m_open; m_ok=o.m_ok; m_pos=o.m_pos; m_mode=o.m_mode; o.m_open=false; return *this; }
    void open(const string& p,ios_base::openmode m){ open(p.c_str(),m); } void open(const char*,ios_base::openmode m){ if(m_open){ m_ok=false; return; } bool keep=(m&ios_base::in)||(m&ios_base::app),tr=(m&ios_base::trunc)!=0; if((keep&&!tr&&!(m&ios_base::app)&&!lvdir_exists)||(!lvdir_exists&&!lvdir_creatable)){ m_ok=false; return; } if(!keep||tr) lvdir_file->clear(); lvdir_exists=true; m_open=true; m_ok=true; m_mode=m; m_pos=(m&ios_base::ate)?lvdir_file->size():0; }
    bool is_open() const { return m_open; } void close(){ if(!m_open) m_ok=false; m_open=false; } void clear(){ m_ok=true; } explicit operator bool() const { return m_ok; } bool operator!() const { return !m_ok; } bool good() const { return m_ok; } bool fail() const { return !m_ok; }
    streamoff tellp(){ return m_ok&&m_open?(streamoff)m_pos:-1; } streamoff tellg(){ return tellp(); } lvdir_fstream& seekp(streamoff o,ios_base::seekdir d=ios_base::beg){ if(!m_ok||!m_open){ m_ok=false; return *this; } m_pos=(size_t)((d==ios_base::beg?0:d==ios_base::cur?(streamoff)m_pos:(streamoff)lvdir_file->size())+o); return *this; } lvdir_fstream& seekg(streamoff o,ios_base::seekdir d=ios_base::beg){ return seekp(o,d); }
    lvdir_fstream& write(const char* p,streamsize n){ if(!m_ok||!m_open||!(m_mode&ios_base::out)){ m_ok=false; return *this; } for(streamsize i=0;i<n;++i){ if(m_pos>=lvdir_file->size()){ if(lvdir_room>=0&&(long)lvdir_file->size()>=lvdir_room){ m_ok=false; return *this; } lvdir_file->push_back(p[i]); } else (*lvdir_file)[m_pos]=p[i]; ++m_pos; } return *this; } lvdir_fstream& put(char c){ return write(&c,1); }
    lvdir_fstream& flush(){ return *this; } lvdir_fstream& read(char* p,streamsize n){ if(!m_ok||!m_open||!(m_mode&ios_base::in)||m_pos+(size_t)n>lvdir_file->size()){ m_ok=false; return *this; } for(streamsize i=0;i<n;++i) p[i]=(*lvdir_file)[m_pos++]; return *this; } ~lvdir_fstream(){} }; }
#define fstream lvdir_fstream
#endif
