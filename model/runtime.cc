// Guest runtime: environment model executed by the symbolic engine together with the real code.
// Provides what libstdc++/libc/ICU-io would provide as binaries.  C locale, memory-backed files.
#include <string>
#include <map>
#include <vector>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unicode/ustdio.h>
#include <unicode/ustring.h>
#include <unicode/utf16.h>
#include "sx_rt.h"

template class std::basic_string<char>;
template class std::basic_string<char16_t>;

extern "C" int sx_scan(const UChar* s, int kind, void* out);   // kind 'd' or 'f'

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size()+1); memcpy(p,s.c_str(),s.size()+1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n+1); memcpy(p,s,n); p[n]=0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
static const char*& cw(const void* e) { return *(const char**)((char*)e + sizeof(void*)); }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s,strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return cw(this); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s,strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return cw(this); }
#define SXE(N,B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
SXE(invalid_argument,logic_error) SXE(out_of_range,logic_error) SXE(length_error,logic_error) SXE(domain_error,logic_error)
SXE(range_error,runtime_error) SXE(overflow_error,runtime_error) SXE(underflow_error,runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
}
// ---------------------------------------------------------------- red-black tree (CLRS, header layout of libstdc++)
namespace std {
typedef _Rb_tree_node_base N_;
static N_* inc_(N_* x) { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; return x; } N_* y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; return x; }
static N_* dec_(N_* x) { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) return x->_M_right; if (x->_M_left) { x=x->_M_left; while (x->_M_right) x=x->_M_right; return x; } N_* y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } return y; }
N_* _Rb_tree_increment(N_* x) throw() { return inc_(x); }
const N_* _Rb_tree_increment(const N_* x) throw() { return inc_((N_*)x); }
N_* _Rb_tree_decrement(N_* x) throw() { return dec_(x); }
const N_* _Rb_tree_decrement(const N_* x) throw() { return dec_((N_*)x); }
static void rotl_(N_* x, N_*& root) { N_* y=x->_M_right; x->_M_right=y->_M_left; if (y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr_(N_* x, N_*& root) { N_* y=x->_M_left; x->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left, N_* x, N_* p, N_& h) throw() {
  N_*& root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
  while (x!=root && x->_M_parent->_M_color==_S_red) {
    N_* g=x->_M_parent->_M_parent;
    if (x->_M_parent==g->_M_left) { N_* y=g->_M_right;
      if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
      else { if (x==x->_M_parent->_M_right) { x=x->_M_parent; rotl_(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr_(g,root); } }
    else { N_* y=g->_M_left;
      if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
      else { if (x==x->_M_parent->_M_left) { x=x->_M_parent; rotr_(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl_(g,root); } }
  }
  root->_M_color=_S_black;
}
N_* _Rb_tree_rebalance_for_erase(N_* const z, N_& h) throw() {
  N_*& root=h._M_parent; N_*& lm=h._M_left; N_*& rm=h._M_right; N_* y=z; N_* x=0; N_* xp=0;
  if (!y->_M_left) x=y->_M_right; else if (!y->_M_right) x=y->_M_left; else { y=y->_M_right; while (y->_M_left) y=y->_M_left; x=y->_M_right; }
  if (y!=z) { z->_M_left->_M_parent=y; y->_M_left=z->_M_left;
    if (y!=z->_M_right) { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
    if (root==z) root=y; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y;
    y->_M_parent=z->_M_parent; auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; if (root==z) root=x; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if (lm==z) { if (!z->_M_right) lm=z->_M_parent; else { N_* t=x; while (t->_M_left) t=t->_M_left; lm=t; } }
    if (rm==z) { if (!z->_M_left) rm=z->_M_parent; else { N_* t=x; while (t->_M_right) t=t->_M_right; rm=t; } } }
  if (y->_M_color!=_S_red) {
    while (x!=root && (!x || x->_M_color==_S_black))
      if (x==xp->_M_left) { N_* w=xp->_M_right;
        if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotl_(xp,root); w=xp->_M_right; }
        if ((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if (!w->_M_right||w->_M_right->_M_color==_S_black) { w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr_(w,root); w=xp->_M_right; }
          w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_right) w->_M_right->_M_color=_S_black; rotl_(xp,root); break; } }
      else { N_* w=xp->_M_left;
        if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotr_(xp,root); w=xp->_M_left; }
        if ((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if (!w->_M_left||w->_M_left->_M_color==_S_black) { w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl_(w,root); w=xp->_M_left; }
          w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_left) w->_M_left->_M_color=_S_black; rotr_(xp,root); break; } }
    if (x) x->_M_color=_S_black; }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { _List_node_base* n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next!=&x) { if (y._M_next!=&y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
  else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const unsigned long pr[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411,57557}; for (auto p : pr) if (p>=n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize=p*_M_max_load_factor; return p; } return n|1; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const { if (ne+ins>_M_next_resize) { size_t m=ne+ins; if (m>=nb) { size_t w=m+1; if (w<nb*2) w=nb*2; if (w<11) w=11; return {true,_M_next_bkt(w)}; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize=nb; } return {false,0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c=(const unsigned char*)p; size_t h=seed; for (size_t i=0;i<n;i++) h=h*131+c[i]; return h; }
// streams
static basic_streambuf<char,char_traits<char>> bo_, be_, bl_, bi_;
ostream cout(&bo_), cerr(&be_), clog(&bl_); istream cin(&bi_);
template ostream& operator<< <char, char_traits<char>, allocator<char>>(ostream&, const string&);
}
struct SxErrInit { SxErrInit() { std::cerr.rdbuf()->discard_=true; std::clog.rdbuf()->discard_=true; } } sxErrInit;

// ---------------------------------------------------------------- C stdio over an in-memory file system
struct MFile { std::string* data; std::string own; size_t pos=0; bool eof=false, err=false, rd=false, wr=false, app=false; int un=-1; std::string name; bool mem=false; char** mp=nullptr; size_t* ms=nullptr; };
static std::map<std::string,std::string>& fs() { static std::map<std::string,std::string>* m=new std::map<std::string,std::string>(); return *m; }
static MFile* stdf(bool rd) { MFile* f=new MFile(); f->data=&f->own; f->rd=rd; f->wr=!rd; return f; }
extern "C" {
FILE* stdin; FILE* stdout; FILE* stderr;
}
struct StdInit { StdInit() { stdin=(FILE*)stdf(true); stdout=(FILE*)stdf(false); stderr=(FILE*)stdf(false); } };
static StdInit stdInit __attribute__((init_priority(101)));
#define M(f) ((MFile*)(f))
bool sx_fs_get(const char* n, std::string& o) { auto it=fs().find(n); if (it==fs().end()) return false; o=it->second; return true; }
std::string* sx_fs_find(const char* n) { auto it=fs().find(n); return it==fs().end()?nullptr:&it->second; }
void sx_fs_put(const char* n, const std::string& d) { fs()[n]=d; }
namespace std { bool sx_file_load(const char* n, std::string& o) { return sx_fs_get(n,o); } void sx_file_save(const char* n, const std::string& d) { sx_fs_put(n,d); } }
void sx_stdin_set(const std::string& s) { MFile* f=M(stdin); f->own=s; f->pos=0; f->eof=false; f->un=-1; }
std::string sx_stdout_get() { return M(stdout)->own; }
extern "C" {
FILE* fopen(const char* n, const char* m) {
  bool w=m[0]=='w', a=m[0]=='a'; auto it=fs().find(n);
  if (!w && !a && it==fs().end()) return nullptr;
  MFile* f=new MFile(); f->name=n; if (w) fs()[n]=""; f->data=&fs()[n]; f->rd=m[0]=='r'||strchr(m,'+'); f->wr=w||a||strchr(m,'+'); if (a) f->pos=f->data->size();
  return (FILE*)f; }
FILE* fmemopen(void* b, size_t n, const char* m) { MFile* f=new MFile(); f->own.assign((const char*)b,n); f->data=&f->own; f->rd=true; f->mem=true; return (FILE*)f; }
FILE* tmpfile() { MFile* f=new MFile(); f->data=&f->own; f->rd=f->wr=true; return (FILE*)f; }
FILE* open_memstream(char** p, size_t* n) { MFile* f=new MFile(); f->data=&f->own; f->wr=true; f->mp=p; f->ms=n; return (FILE*)f; }
int fflush(FILE* f) { if (f && M(f)->mp) { MFile* m=M(f); *m->mp=(char*)malloc(m->own.size()+1); memcpy(*m->mp,m->own.c_str(),m->own.size()+1); *m->ms=m->own.size(); } return 0; }
int fclose(FILE* f) { if (!f) sx_assert_(0,"fclose(NULL)"); fflush(f); if (f!=stdin&&f!=stdout&&f!=stderr) delete M(f); return 0; }
int fgetc(FILE* f) { MFile* m=M(f); if (m->un>=0) { int c=m->un; m->un=-1; return c; } if (m->pos>=m->data->size()) { m->eof=true; return EOF; } return (unsigned char)(*m->data)[m->pos++]; }
int fgetc_unlocked(FILE* f) { return fgetc(f); } int getc(FILE* f) { return fgetc(f); } int getc_unlocked(FILE* f) { return fgetc(f); } int getchar() { return fgetc(stdin); }
int ungetc(int c, FILE* f) { if (c==EOF) return EOF; MFile* m=M(f); m->eof=false; if (m->pos>0 && m->un<0) { m->pos--; (*m->data)[m->pos]=c; } else m->un=c; return c; }
size_t fread(void* p, size_t s, size_t n, FILE* f) { if (!s||!n) return 0; size_t i=0; char* c=(char*)p; MFile* m=M(f); size_t want=s*n;
  while (i<want) { int ch=fgetc(f); if (m->eof) break; c[i++]=ch; } return i/s; }
char* fgets(char* b, int n, FILE* f) { int i=0; while (i<n-1) { int c=fgetc(f); if (M(f)->eof) break; b[i++]=(char)c; if (c=='\n') break; } if (!i) return nullptr; b[i]=0; return b; }
size_t fread_unlocked(void* p, size_t s, size_t n, FILE* f) { return fread(p,s,n,f); }
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { MFile* m=M(f); size_t k=s*n; if (!k) return 0; if (f==stderr) return n; if (m->pos>=m->data->size()) { m->data->append((const char*)p,k); m->pos=m->data->size(); } else { m->data->replace(m->pos,k,(const char*)p,k); m->pos+=k; } return n; }
size_t fwrite_unlocked(const void* p, size_t s, size_t n, FILE* f) { return fwrite(p,s,n,f); }
int fputc(int c, FILE* f) { char b=c; fwrite(&b,1,1,f); return (unsigned char)c; }
int fputc_unlocked(int c, FILE* f) { return fputc(c,f); } int putc(int c, FILE* f) { return fputc(c,f); } int putchar(int c) { return fputc(c,stdout); } int putc_unlocked(int c, FILE* f) { return fputc(c,f); }
int fputs(const char* s, FILE* f) { fwrite(s,1,strlen(s),f); return 1; }
int fputs_unlocked(const char* s, FILE* f) { return fputs(s,f); } int puts(const char* s) { fputs(s,stdout); fputc('\n',stdout); return 1; }
int feof(FILE* f) { return M(f)->eof; } int feof_unlocked(FILE* f) { return M(f)->eof; } int ferror(FILE* f) { return M(f)->err; } int ferror_unlocked(FILE* f) { return M(f)->err; } void clearerr(FILE* f) { M(f)->eof=M(f)->err=false; }
int fseek(FILE* f, long o, int w) { MFile* m=M(f); m->eof=false; m->un=-1; long b = w==SEEK_SET?0:w==SEEK_CUR?(long)m->pos:(long)m->data->size(); if (b+o<0) return -1; m->pos=b+o; return 0; }
long ftell(FILE* f) { return M(f)->pos; }
void rewind(FILE* f) { fseek(f,0,SEEK_SET); M(f)->err=false; }
int fgetpos(FILE* f, fpos_t* p) { *(long*)p=M(f)->pos; return 0; }
int fsetpos(FILE* f, const fpos_t* p) { M(f)->pos=*(long*)p; M(f)->eof=false; M(f)->un=-1; return 0; }
int setvbuf(FILE*, char*, int, size_t) { return 0; } void setbuf(FILE*, char*) {}
int fileno(FILE* f) { return f==stdin?0:f==stdout?1:f==stderr?2:9; }
int isatty(int) { return 0; }
char* setlocale(int, const char*) { return (char*)"C"; }
int tolower(int c) { return c>='A'&&c<='Z'?c+32:c; } int toupper(int c) { return c>='a'&&c<='z'?c-32:c; }
int isspace(int c) { return c==' '||(c>=9&&c<=13); } int isdigit(int c) { return c>='0'&&c<='9'; } int isalpha(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int isalnum(int c) { return isalpha(c)||isdigit(c); }
char* strdup(const char* s) { size_t n=strlen(s)+1; char* p=(char*)malloc(n); memcpy(p,s,n); return p; }
char* strcpy(char* d, const char* s) { memcpy(d,s,strlen(s)+1); return d; } char* strcat(char* d, const char* s) { strcpy(d+strlen(d),s); return d; }
char* __xpg_basename(char* p) { char* r=strrchr(p,'/'); return r?r+1:p; }
void* __dso_handle=nullptr;
unsigned long __cxa_guard_dummy;
int __cxa_guard_acquire(long* g) { char* c=(char*)g; sx_quiet(1); if (*c) { sx_quiet(-1); return 0; } *c=1; return 1; }   // quiet up to the release
double frexp(double d, int* e) { uint64_t b; memcpy(&b,&d,8); unsigned x=(b>>52)&0x7ff; if (x==0x7ff || (b<<1)==0) { *e=0; return d; }
  if (x==0) { uint64_t m=b&0xfffffffffffffull; int k=0; while (!(m&0x10000000000000ull)) { m<<=1; k++; } b=(b&0x8000000000000000ull)|(1022ull<<52)|(m&0xfffffffffffffull); *e=-1021-k; }
  else { *e=(int)x-1022; b=(b&0x800fffffffffffffull)|(1022ull<<52); }
  memcpy(&d,&b,8); return d; }
double ldexp(double d, int e) { uint64_t b; memcpy(&b,&d,8); int x=(b>>52)&0x7ff; if (x==0x7ff || (b<<1)==0) return d;
  if (x!=0 && e>-3000 && e<3000 && x+e>0 && x+e<0x7ff) { b=(b&0x800fffffffffffffull)|((uint64_t)(x+e)<<52); memcpy(&d,&b,8); return d; }
  while (e>0) { if (d-d!=0.0) break; d*=2.0; e--; } 
  if (e<0) { if (e<-2200) e=-2200; // a single rounding: scale exactly while normal, then one final multiplication
    while (e<0) { int s = e<-1000? 1000 : -e; uint64_t f=(uint64_t)(1023-s)<<52; double m; memcpy(&m,&f,8); d*=m; e+=s; } }
  return d; }
}
// ---------------------------------------------------------------- printf family
static void numTo(std::string& o, long long v) { char t[24]; int i=24; bool n=v<0; unsigned long long u=n?0ull-(unsigned long long)v:v; do { t[--i]='0'+u%10; u/=10; } while (u); if (n) t[--i]='-'; o.append(t+i,24-i); }
static void ascii16(std::u16string& o, const char* s, size_t n) { for (size_t i=0;i<n;i++) o.push_back((unsigned char)s[i]); }
// a conversion: flags, width, precision and length
struct Conv { bool left=false, plus=false, space=false, zero=false, alt=false; int width=0, prec=-1, len=0; char c=0; };
static const char* convParse(const char* f, va_list& ap, Conv& k) {   // f: after '%'; returns the position of the conversion character
  for (;;f++) { if (*f=='-') k.left=true; else if (*f=='+') k.plus=true; else if (*f==' ') k.space=true; else if (*f=='0') k.zero=true; else if (*f=='#') k.alt=true; else break; }
  if (*f=='*') { k.width=va_arg(ap,int); if (k.width<0) { k.left=true; k.width=-k.width; } f++; } else while (*f>='0'&&*f<='9') k.width=k.width*10+*f++-'0';
  if (*f=='.') { f++; if (*f=='*') { k.prec=va_arg(ap,int); f++; } else { k.prec=0; while (*f>='0'&&*f<='9') k.prec=k.prec*10+*f++-'0'; } }
  for (;;f++) { if (*f=='l'||*f=='z'||*f=='j'||*f=='t') k.len=8; else if (*f=='h') { k.len = k.len==2?1:2; } else break; }
  k.c=*f; return f; }
// a numeric field, without the padding of its width unless that is made of zeros
static bool convNum(const Conv& k, va_list& ap, std::string& o) {
  std::string sign, dig; bool num=true, fin=true;
  switch (k.c) {
   case 'd': case 'i': { long v = k.len==8? va_arg(ap,long) : va_arg(ap,int); if (k.len==2) v=(short)v; if (k.len==1) v=(signed char)v; if (v<0) { sign="-"; numTo(dig,v); dig.erase(0,1); } else { numTo(dig,v); if (k.plus) sign="+"; else if (k.space) sign=" "; } break; }
   case 'u': case 'x': case 'X': case 'o': { unsigned long v = k.len==8? va_arg(ap,unsigned long) : va_arg(ap,unsigned); if (k.len==2) v=(unsigned short)v; if (k.len==1) v=(unsigned char)v; unsigned b = k.c=='u'?10:k.c=='o'?8:16; unsigned long w=v; char t[24]; int i=24; do { t[--i]=(k.c=='X'?"0123456789ABCDEF":"0123456789abcdef")[v%b]; v/=b; } while (v); dig.assign(t+i,24-i); if (k.alt && w) { if (k.c=='x') sign="0x"; else if (k.c=='X') sign="0X"; else if (k.c=='o') dig="0"+dig; } break; }
   case 'p': { unsigned long v=(unsigned long)va_arg(ap,void*); char t[24]; int i=24; do { t[--i]="0123456789abcdef"[v%16]; v/=16; } while (v); dig.assign(t+i,24-i); sign="0x"; break; }
   case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { double d=va_arg(ap,double); char b[400]; int n=sx_fmt_double(b,k.c,k.prec<0?6:k.prec,d); dig.assign(b,n); if (n && b[0]=='-') { sign="-"; dig.erase(0,1); } else if (k.plus) sign="+"; else if (k.space) sign=" "; num=false; fin = d-d==0.0; break; }
   default: return false; }
  if (num && k.prec>=0) { if (k.prec==0 && dig=="0") dig.clear(); if ((int)dig.size()<k.prec) dig.insert(0,k.prec-dig.size(),'0'); }
  else if (k.zero && !k.left && fin && (int)(sign.size()+dig.size())<k.width) dig.insert(0,k.width-sign.size()-dig.size(),'0');
  o=sign+dig; return true; }
// narrow printf
static std::string vfmt(const char* f, va_list ap0) { std::string o; va_list ap; va_copy(ap,ap0); for (;*f;f++) { if (*f!='%') { o+=*f; continue; } f++; if (*f=='%') { o+='%'; continue; } Conv k; f=convParse(f,ap,k); std::string t;
  if (k.c=='c') t+=(char)va_arg(ap,int); else if (k.c=='s') { const char* s=va_arg(ap,const char*); if (!s) s="(null)"; size_t n=0; while ((k.prec<0||n<(size_t)k.prec)&&s[n]) n++; t.append(s,n); }
  else if (!convNum(k,ap,t)) sx_assert_(0,"unmodelled printf conversion");
  if (!k.left && (int)t.size()<k.width) o.append(k.width-t.size(),' '); o+=t; if (k.left && (int)t.size()<k.width) o.append(k.width-t.size(),' '); } va_end(ap); return o; }
extern "C" {
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { std::string s=vfmt(f,ap); if (n) { size_t k=s.size()<n?s.size():n-1; memcpy(b,s.data(),k); b[k]=0; } return s.size(); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); fwrite(s.data(),1,s.size(),o); return s.size(); }
int printf(const char* f, ...) { va_list ap; va_start(ap,f); std::string s=vfmt(f,ap); va_end(ap); fwrite(s.data(),1,s.size(),stdout); return s.size(); }
}
// ---------------------------------------------------------------- ICU ustdio (UTF-8)
struct MUFile { FILE* f; bool own; int lead=0; std::u16string in; size_t ip=0; bool filled=false; };
#define MU(f) ((MUFile*)(f))
static void put8(FILE* f, uint32_t c) { char b[4]; int n; if (c<0x80) { b[0]=c; n=1; } else if (c<0x800) { b[0]=0xC0|(c>>6); b[1]=0x80|(c&63); n=2; } else if (c<0x10000) { b[0]=0xE0|(c>>12); b[1]=0x80|((c>>6)&63); b[2]=0x80|(c&63); n=3; } else { b[0]=0xF0|(c>>18); b[1]=0x80|((c>>12)&63); b[2]=0x80|((c>>6)&63); b[3]=0x80|(c&63); n=4; } fwrite(b,1,n,f); }
static void put16(MUFile* u, uint16_t c) {
  if (u->lead) { int l=u->lead; u->lead=0; if (c>=0xDC00&&c<0xE000) { put8(u->f,0x10000+((l-0xD800)<<10)+(c-0xDC00)); return; } put8(u->f,0xFFFD); }
  if (c>=0xD800&&c<0xDC00) { u->lead=c; return; }
  if (c>=0xDC00&&c<0xE000) { put8(u->f,0xFFFD); return; }
  put8(u->f,c);
}
static std::u16string uvfmt(const char* f, va_list ap0) { std::u16string o; va_list ap; va_copy(ap,ap0); for (;*f;f++) { if (*f!='%') { o+=(char16_t)(unsigned char)*f; continue; } f++; if (*f=='%') { o+=u'%'; continue; } Conv k; f=convParse(f,ap,k); std::u16string t;
  if (k.c=='S') { const char16_t* s=va_arg(ap,const char16_t*); size_t n=0; if (!s) t+=u"(null)"; else { while ((k.prec<0||n<(size_t)k.prec)&&s[n]) n++; t.append(s,n); } }
  else if (k.c=='s') { const char* s=va_arg(ap,const char*); size_t n=0; while ((k.prec<0||n<(size_t)k.prec)&&s[n]) n++; ascii16(t,s,n); }
  else if (k.c=='C') t+=(char16_t)va_arg(ap,int); else if (k.c=='c') t+=(char16_t)(unsigned char)va_arg(ap,int);
  else { std::string q; if (k.c=='g'||k.c=='e'||k.c=='G'||k.c=='E'||!convNum(k,ap,q)) sx_assert_(0,"unmodelled u_printf conversion"); ascii16(t,q.data(),q.size()); }
  if (!k.left && (int)t.size()<k.width) o.append(k.width-t.size(),u' '); o+=t; if (k.left && (int)t.size()<k.width) o.append(k.width-t.size(),u' '); } va_end(ap); return o; }
extern "C" {
UFILE* u_finit(FILE* f, const char*, const char*) { MUFile* u=new MUFile(); u->f=f; u->own=false; return (UFILE*)u; }
UFILE* u_fadopt(FILE* f, const char*, const char*) { MUFile* u=new MUFile(); u->f=f; u->own=true; return (UFILE*)u; }
UFILE* u_fopen(const char* n, const char* m, const char*, const char*) { FILE* f=fopen(n,m); if (!f) return nullptr; MUFile* u=new MUFile(); u->f=f; u->own=true; return (UFILE*)u; }
UFILE* u_get_stdout() { static UFILE* u=nullptr; if (!u) u=u_finit(stdout,0,0); return u; }
void u_fflush(UFILE*) {}
void u_fclose(UFILE* x) { if (!x) return; MUFile* u=MU(x); if (u->lead) { put8(u->f,0xFFFD); u->lead=0; } if (u->own) fclose(u->f); delete u; }
FILE* u_fgetfile(UFILE* u) { return MU(u)->f; }
UChar32 u_fputc(UChar32 c, UFILE* f) { if ((uint32_t)c>0x10FFFF) return U_EOF; if (c<0x10000) put16(MU(f),c); else { put16(MU(f),U16_LEAD(c)); put16(MU(f),U16_TRAIL(c)); } return c; }
int32_t u_file_write(const UChar* s, int32_t n, UFILE* f) { for (int i=0;i<n;i++) put16(MU(f),s[i]); return n; }
int32_t u_fputs(const UChar* s, UFILE* f) { int n=0; for (;s[n];n++) put16(MU(f),s[n]); put16(MU(f),u'\n'); return n+1; }
int32_t u_vfprintf(UFILE* f, const char* p, va_list ap) { std::u16string s=uvfmt(p,ap); for (auto c : s) put16(MU(f),c); return s.size(); }
int32_t u_fprintf(UFILE* f, const char* p, ...) { va_list ap; va_start(ap,p); int32_t r=u_vfprintf(f,p,ap); va_end(ap); return r; }
int32_t u_printf(const char* p, ...) { va_list ap; va_start(ap,p); int32_t r=u_vfprintf(u_get_stdout(),p,ap); va_end(ap); return r; }
int32_t u_vsnprintf(UChar* b, int32_t n, const char* p, va_list ap) { std::u16string s=uvfmt(p,ap); int k=(int)s.size()<n?(int)s.size():n; for (int i=0;i<k;i++) b[i]=s[i]; if (k<n) b[k]=0; return s.size(); }
int32_t u_snprintf(UChar* b, int32_t n, const char* p, ...) { va_list ap; va_start(ap,p); int32_t r=u_vsnprintf(b,n,p,ap); va_end(ap); return r; }
int32_t u_sprintf(UChar* b, const char* p, ...) { va_list ap; va_start(ap,p); std::u16string s=uvfmt(p,ap); va_end(ap); for (size_t i=0;i<=s.size();i++) b[i]=s.c_str()[i]; return s.size(); }
int32_t u_sscanf(const UChar* s, const char* p, ...) { va_list ap; va_start(ap,p); void* o=va_arg(ap,void*); va_end(ap); if (!strcmp(p,"%d")) return sx_scan(s,'d',o); if (!strcmp(p,"%lf")) return sx_scan(s,'f',o); sx_assert_(0,"unmodelled u_sscanf format"); return 0; }
static void fillIn(MUFile* u) { u->filled=true; // decode all of the rest
  for (;;) { int c=fgetc(u->f); if (feof(u->f)) break; uint32_t cp; int n; if (c<0x80) { u->in.push_back(c); continue; } if (c>=0xC2&&c<0xE0) { cp=c&31; n=1; } else if (c>=0xE0&&c<0xF0) { cp=c&15; n=2; } else if (c>=0xF0&&c<0xF5) { cp=c&7; n=3; } else { u->in.push_back(0xFFFD); continue; }
    bool ok=true; for (int i=0;i<n;i++) { int d=fgetc(u->f); if (feof(u->f)) { ok=false; break; } if ((d&0xC0)!=0x80) { ok=false; ungetc(d,u->f); break; } cp=(cp<<6)|(d&63); }
    if (!ok) { u->in.push_back(0xFFFD); continue; } if (cp<0x10000) u->in.push_back(cp); else { u->in.push_back(U16_LEAD(cp)); u->in.push_back(U16_TRAIL(cp)); } } }
UChar u_fgetc(UFILE* f) { MUFile* u=MU(f); if (!u->filled) fillIn(u); if (u->ip<u->in.size()) return u->in[u->ip++]; return U_EOF; }
UBool u_feof(UFILE* f) { MUFile* u=MU(f); if (!u->filled) return false; return u->ip>=u->in.size(); }
const char* u_errorName(UErrorCode) { return "U_ERROR"; }
int32_t u_strlen(const UChar* s) { int n=0; while (s[n]) n++; return n; }
int32_t u_strcmp(const UChar* a, const UChar* b) { while (*a&&*a==*b) { a++; b++; } return (int)*a-(int)*b; }
int32_t u_strncmp(const UChar* a, const UChar* b, int32_t n) { for (int i=0;i<n;i++) { if (a[i]!=b[i]) return (int)a[i]-(int)b[i]; if (!a[i]) break; } return 0; }
UChar* u_strcpy(UChar* d, const UChar* s) { UChar* r=d; while ((*d++=*s++)) {} return r; }
UChar* u_strncpy(UChar* d, const UChar* s, int32_t n) { UChar* r=d; while (n>0) { --n; if ((*d++=*s++)==0) break; } return r; }
UChar* u_strcat(UChar* d, const UChar* s) { u_strcpy(d+u_strlen(d),s); return d; }
UChar* u_memcpy(UChar* d, const UChar* s, int32_t n) { for (int i=0;i<n;i++) d[i]=s[i]; return d; }
UChar* u_memmove(UChar* d, const UChar* s, int32_t n) { if (d<s) for (int i=0;i<n;i++) d[i]=s[i]; else for (int i=n;i-->0;) d[i]=s[i]; return d; }
UChar* u_memset(UChar* d, UChar c, int32_t n) { for (int i=0;i<n;i++) d[i]=c; return d; }
UChar* u_memchr(const UChar* s, UChar c, int32_t n) { for (int i=0;i<n;i++) if (s[i]==c) return (UChar*)s+i; return nullptr; }
UChar* u_strchr(const UChar* s, UChar c) { for (;;s++) { if (*s==c) return (UChar*)s; if (!*s) return nullptr; } }
UChar* u_strrchr(const UChar* s, UChar c) { const UChar* r=nullptr; for (;;s++) { if (*s==c) r=s; if (!*s) return (UChar*)r; } }
UChar* u_strstr(const UChar* s, const UChar* t) { for (;;s++) { int i=0; while (t[i]&&s[i]==t[i]) i++; if (!t[i]) return (UChar*)s; if (!*s) return nullptr; } }
int32_t u_countChar32(const UChar* s, int32_t n) { int k=0; for (int i=0; n<0? s[i]!=0 : i<n; i++) { k++; if ((s[i]&0xfc00)==0xd800 && (n<0||i+1<n) && (s[i+1]&0xfc00)==0xdc00) i++; } return k; }
static UChar32 next16_(const UChar* s, int32_t& i, int32_t n) { UChar32 c=s[i++]; if ((c&0xfc00)==0xd800 && i<n && (s[i]&0xfc00)==0xdc00) c=0x10000+((c-0xd800)<<10)+(s[i++]-0xdc00); return c; }
char* u_strToUTF8(char* d, int32_t cap, int32_t* len, const UChar* s, int32_t n, UErrorCode* e) { if (n<0) n=u_strlen(s); int32_t k=0; for (int32_t i=0;i<n;) { UChar32 c=next16_(s,i,n); if ((c&0xfffff800)==0xd800) { *e=U_INVALID_CHAR_FOUND; return d; } unsigned char b[4]; int m=0; if (c<0x80) b[m++]=c; else if (c<0x800) { b[m++]=0xc0|(c>>6); b[m++]=0x80|(c&63); } else if (c<0x10000) { b[m++]=0xe0|(c>>12); b[m++]=0x80|((c>>6)&63); b[m++]=0x80|(c&63); } else { b[m++]=0xf0|(c>>18); b[m++]=0x80|((c>>12)&63); b[m++]=0x80|((c>>6)&63); b[m++]=0x80|(c&63); } for (int j=0;j<m;j++,k++) if (k<cap) d[k]=(char)b[j]; } if (len) *len=k; if (k<cap) d[k]=0; else if (k>cap) *e=U_BUFFER_OVERFLOW_ERROR; return d; }
UChar* u_strFromUTF8(UChar* d, int32_t cap, int32_t* len, const char* s0, int32_t n, UErrorCode* e) { const unsigned char* s=(const unsigned char*)s0; if (n<0) { n=0; while (s[n]) n++; } int32_t k=0; for (int32_t i=0;i<n;) { UChar32 c=s[i++]; int m=c<0x80?0:c<0xc2?-1:c<0xe0?1:c<0xf0?2:c<0xf5?3:-1; if (m<0||i+m>n) { *e=U_INVALID_CHAR_FOUND; return d; } if (m) c&=(1<<(6-m))-1; for (int j=0;j<m;j++) { if ((s[i]&0xc0)!=0x80) { *e=U_INVALID_CHAR_FOUND; return d; } c=(c<<6)|(s[i++]&63); } if (c<0x10000) { if (k<cap) d[k]=c; k++; } else { if (k<cap) d[k]=0xd7c0+(c>>10); k++; if (k<cap) d[k]=0xdc00|(c&0x3ff); k++; } } if (len) *len=k; if (k<cap) d[k]=0; else if (k>cap) *e=U_BUFFER_OVERFLOW_ERROR; return d; }
UChar32* u_strToUTF32(UChar32* d, int32_t cap, int32_t* len, const UChar* s, int32_t n, UErrorCode* e) { if (n<0) n=u_strlen(s); int32_t k=0; for (int32_t i=0;i<n;k++) { UChar32 c=next16_(s,i,n); if (k<cap) d[k]=c; } if (len) *len=k; if (k<cap) d[k]=0; else if (k>cap) *e=U_BUFFER_OVERFLOW_ERROR; return d; }
UChar* u_strFromUTF32(UChar* d, int32_t cap, int32_t* len, const UChar32* s, int32_t n, UErrorCode* e) { if (n<0) { n=0; while (s[n]) n++; } int32_t k=0; for (int32_t i=0;i<n;i++) { UChar32 c=s[i]; if (c<0x10000) { if (k<cap) d[k]=c; k++; } else { if (k<cap) d[k]=0xd7c0+(c>>10); k++; if (k<cap) d[k]=0xdc00|(c&0x3ff); k++; } } if (len) *len=k; if (k<cap) d[k]=0; else if (k>cap) *e=U_BUFFER_OVERFLOW_ERROR; return d; }
int32_t u_memcmp(const UChar* a, const UChar* b, int32_t n) { for (int i=0;i<n;i++) if (a[i]!=b[i]) return (int)a[i]-(int)b[i]; return 0; }
}
// ---------------------------------------------------------------- lttoolbox locale helper
#include <lttoolbox/lt_locale.h>
void LtLocale::tryToSetLocale() {}
char* getenv(const char*) { return nullptr; }   // an empty environment
extern "C" int atoi(const char* s) { while (*s==' ' || (*s>=9 && *s<=13)) s++; bool n=*s=='-'; if (*s=='-' || *s=='+') s++; int v=0; while (*s>='0' && *s<='9') v=v*10+(*s++-'0'); return n?-v:v; }
// ---------------------------------------------------------------- getopt_long
#include <getopt.h>
extern "C" {
char* optarg; int optind=1, opterr=1, optopt;
static int nextch=0, after=0;   // the element after the one in hand, in the original order
int getopt_long(int argc, char* const* argv, const char* s, const struct option* lo, int* idx) {
  // permutes like GNU getopt: non-options are moved after the options
  char** av=(char**)argv; optarg=nullptr;
  if (optind==0) { optind=1; nextch=0; }
  if (nextch==0) {
    int k=optind; while (k<argc && !(av[k][0]=='-'&&av[k][1])) k++;
    if (k>=argc) return -1;
    if (k!=optind) { char* t=av[k]; for (int i=k;i>optind;i--) av[i]=av[i-1]; av[optind]=t; }
    char* a=av[optind];
    if (!strcmp(a,"--")) { optind++; return -1; }
    if (a[1]=='-') { // long option
      const char* n=a+2; const char* e=strchr(n,'='); size_t l=e?(size_t)(e-n):strlen(n); int m=-1; bool amb=false;
      for (int i=0;lo&&lo[i].name;i++) if (!strncmp(lo[i].name,n,l)) { if (strlen(lo[i].name)==l) { m=i; amb=false; break; } if (m>=0) amb=true; else m=i; }
      optind++;
      if (m<0||amb) return '?';
      bool moved=k!=optind-1; (void)moved;
      if (lo[m].has_arg==1) { if (e) optarg=(char*)e+1; else { // value: the following element in the original order
            if (k+1<argc && k+1>=optind) { char* t=av[k+1]; for (int i=k+1;i>optind;i--) av[i]=av[i-1]; av[optind]=t; optarg=av[optind++]; } else return '?'; } }
      else if (lo[m].has_arg==2) { if (e) optarg=(char*)e+1; } else if (e) return '?';
      if (idx) *idx=m; if (lo[m].flag) { *lo[m].flag=lo[m].val; return 0; } return lo[m].val; }
    // short option cluster; remember where its value would be
    nextch=1; after=k+1;
    const char* p=strchr(s,a[1]); if (p && p[1]==':' && p[2]!=':' && !a[2]) { nextch=0; optind++; if (k+1<argc && k+1>=optind) { char* t=av[k+1]; for (int i=k+1;i>optind;i--) av[i]=av[i-1]; av[optind]=t; optarg=av[optind++]; return a[1]; } return '?'; }
  }
  char* a=av[optind]; char c=a[nextch++]; const char* p=c==':'?nullptr:strchr(s,c);
  if (!p) { if (!a[nextch]) { optind++; nextch=0; } return '?'; }
  if (p[1]==':') { if (a[nextch]) { optarg=a+nextch; optind++; nextch=0; } else { optind++; nextch=0; if (p[2]!=':') { if (after<argc) { char* t=av[after]; for (int i=after;i>optind;i--) av[i]=av[i-1]; av[optind]=t; optarg=av[optind++]; } else return '?'; } } }
  else if (!a[nextch]) { optind++; nextch=0; }
  return c;
}
}
// ---------------------------------------------------------------- harness file hooks
const char* hx_path(const char* n) { return n; }
void hx_file_put(const char* n, const std::string& d) { sx_fs_put(n,d); }
bool hx_file_get(const char* n, std::string& d) { return sx_fs_get(n,d); }
