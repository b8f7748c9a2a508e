// libc string searches and conversions (kept apart from <string.h>, whose C++ overloads share the symbol)
typedef unsigned long ulong_; typedef long long llong_;
extern "C" {
char* strchr(const char* s, int c) { for (;;s++) { if (*s==(char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r=nullptr; for (;;s++) { if (*s==(char)c) r=s; if (!*s) return (char*)r; } }
char* strstr(const char* s, const char* t) { for (;;s++) { int i=0; while (t[i]&&s[i]==t[i]) i++; if (!t[i]) return (char*)s; if (!*s) return nullptr; } }
void qsort(void* b, ulong_ n, ulong_ z, int (*f)(const void*, const void*)) { char* p=(char*)b; for (ulong_ i=1;i<n;i++) for (ulong_ j=i;j>0 && f(p+(j-1)*z,p+j*z)>0;j--) for (ulong_ k=0;k<z;k++) { char t=p[(j-1)*z+k]; p[(j-1)*z+k]=p[j*z+k]; p[j*z+k]=t; } }
char* strpbrk(const char* s, const char* t) { for (;*s;s++) if (strchr(t,*s)) return (char*)s; return nullptr; }
ulong_ strspn(const char* s, const char* t) { ulong_ n=0; while (s[n] && strchr(t,s[n])) n++; return n; }
ulong_ strcspn(const char* s, const char* t) { ulong_ n=0; while (s[n] && !strchr(t,s[n])) n++; return n; }
ulong_ strnlen(const char* s, ulong_ m) { ulong_ n=0; while (n<m && s[n]) n++; return n; }
char* strtok_r(char* s, const char* d, char** p) { if (!s) s=*p; s+=strspn(s,d); if (!*s) { *p=s; return nullptr; } char* e=s+strcspn(s,d); if (*e) *e++=0; *p=e; return s; }
static char* tokp;
char* strtok(char* s, const char* d) { return strtok_r(s,d,&tokp); }
static int errno_;
int* __errno_location() { return &errno_; }
static bool sp(char c) { return c==' ' || (c>=9 && c<=13); }
static ulong_ strtou(const char* s, char** e, int b, bool sg) { const char* z=s; while (sp(*s)) s++; bool n=*s=='-'; if (*s=='-'||*s=='+') s++;
  auto dig=[](char c) { return c>='0'&&c<='9' ? c-'0' : c>='a'&&c<='z' ? c-'a'+10 : c>='A'&&c<='Z' ? c-'A'+10 : 99; };
  if ((b==0||b==16) && s[0]=='0' && (s[1]=='x'||s[1]=='X') && dig(s[2])<16) { s+=2; b=16; } else if (b==0) b = *s=='0'?8:10;
  ulong_ v=0; bool any=false, over=false; for (; dig(*s)<b; s++) { any=true; ulong_ w; if (__builtin_mul_overflow(v,(ulong_)b,&w) || __builtin_add_overflow(w,(ulong_)dig(*s),&w)) over=true; v=w; }
  if (e) *e=(char*)(any?s:z);
  if (sg) { ulong_ lim = n ? 1ul<<63 : ~(1ul<<63); if (over || v>lim) { errno_=34; return lim; } } else if (over) { errno_=34; return ~0ul; }
  return n?0-v:v; }
long strtol(const char* s, char** e, int b) { return (long)strtou(s,e,b,true); }
llong_ strtoll(const char* s, char** e, int b) { return (llong_)strtou(s,e,b,true); }
ulong_ strtoul(const char* s, char** e, int b) { return strtou(s,e,b,false); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtou(s,e,b,false); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s,e,b); }
llong_ __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s,e,b); }
ulong_ __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s,e,b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s,e,b); }
long atol(const char* s) { return strtol(s,nullptr,10); }
double sx_strtod(const char* s, char** e, int* er);
double strtod(const char* s, char** e) { return sx_strtod(s,e,&errno_); }
float strtof(const char* s, char** e) { return (float)sx_strtod(s,e,&errno_); }
double atof(const char* s) { return strtod(s,nullptr); }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, ulong_ n) { for (ulong_ i=0;i<n;i++) d[i]=s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, ulong_ n) { if (d<s) for (ulong_ i=0;i<n;i++) d[i]=s[i]; else for (ulong_ i=n;i-->0;) d[i]=s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, ulong_ n) { for (ulong_ i=0;i<n;i++) d[i]=c; return d; }
int wmemcmp(const wchar_t* a, const wchar_t* b, ulong_ n) { for (ulong_ i=0;i<n;i++) if (a[i]!=b[i]) return a[i]<b[i]?-1:1; return 0; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, ulong_ n) { for (ulong_ i=0;i<n;i++) if (s[i]==c) return (wchar_t*)s+i; return nullptr; }
ulong_ wcslen(const wchar_t* s) { ulong_ n=0; while (s[n]) n++; return n; }
int wcscmp(const wchar_t* a, const wchar_t* b) { while (*a && *a==*b) { a++; b++; } return *a<*b?-1:*a>*b; }
int ispunct(int c) { return (c>=33&&c<=47)||(c>=58&&c<=64)||(c>=91&&c<=96)||(c>=123&&c<=126); }
int isupper(int c) { return c>='A'&&c<='Z'; }
int islower(int c) { return c>='a'&&c<='z'; }
int iscntrl(int c) { return (c>=0&&c<32)||c==127; }
int isgraph(int c) { return c>32&&c<127; }
int isprint(int c) { return c>=32&&c<127; }
int isblank(int c) { return c==32||c==9; }
int isxdigit(int c) { return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
}
