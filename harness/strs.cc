// String helpers (string_utils.cc).
#include "proc.h"
#include <lttoolbox/string_utils.h>
#include <unicode/ustring.h>
#include <cmath>
static void put16(UString& o, uint32_t c) { if (c<0x10000) o.push_back((UChar)c); else { o.push_back((UChar)(0xD800+((c-0x10000)>>10))); o.push_back((UChar)(0xDC00+((c-0x10000)&0x3ff))); } }
static UString u16(const U32& s) { UString o; for (auto c : s) put16(o,c); return o; }
static bool same16(UStringView a, UStringView b) { if (a.size()!=b.size()) return false; bool ok=true; for (size_t i=0;i<a.size();i++) ok=ok&(a[i]==b[i]); return ok; }
static U32 str(const char* nm, const uint32_t* tab, unsigned nt, unsigned lo, unsigned hi) { U32 s; unsigned n=lo+hx_pick("len",hi-lo+1); for (unsigned i=0;i<n;i++) s.push_back(tab[hx_pick(nm,nt)]); return s; }
static UString sym(const char* nm, const uint32_t* tab, unsigned nt, unsigned lo, unsigned hi) { UString s; unsigned n=lo+hx_pick("len",hi-lo+1); for (unsigned i=0;i<n;i++) s.push_back((UChar)hx_char(nm,tab,nt)); return s; }
// a view into a longer string, so that reading beyond the end shows
struct View { UString s; size_t n; View(const UString& t, UChar after) : s(u"#"+t), n(t.size()) { s.push_back(after); s.push_back(after); } operator UStringView() const { return UStringView(s).substr(1,n); } };
HARNESS(h_str_trim) { static const uint32_t TT[]={' ','\t','a',0xa0,0x1f600,0x2003,'\n'}; U32 s=str("c",TT,Q(5,7),0,4); size_t i=0, j=s.size(); while (i<j && u_isspace(s[i])) i++; while (j>i && u_isspace(s[j-1])) j--; static const UChar AF[]={' ','x'}; View v(u16(s),AF[hx_pick("after",2)]); CHECK(same16(StringUtils::trim(v),u16(U32(s.begin()+i,s.begin()+j))),"trimming"); sx_reach(0); if (i==s.size() && i) sx_reach(1); }
HARNESS(h_str_trim_any) { unsigned n=1+hx_pick("n",Q(3,4)); UString s; for (unsigned i=0;i<n;i++) { UChar c=(UChar)sx_u16("c"); sx_assume(!(c>=0xD800&&c<0xE000)); s.push_back(c); } size_t i=0, j=n; while (i<j && u_isspace(s[i])) i++; while (j>i && u_isspace(s[j-1])) j--; View v(s,' '); CHECK(same16(StringUtils::trim(v),UStringView(s).substr(i,j-i)),"trimming"); sx_reach(0); }
// pieces between delimiters, empty ones left out
static std::vector<UString> cut(UStringView s, UStringView d) { std::vector<UString> r; UString cur; for (size_t i=0;i<s.size();) { bool hit=i+d.size()<=s.size(); for (size_t k=0;hit && k<d.size();k++) hit=s[i+k]==d[k]; if (hit) { if (!cur.empty()) r.push_back(cur); cur.clear(); i+=d.size(); } else cur.push_back(s[i++]); } if (!cur.empty()) r.push_back(cur); return r; }
static const uint32_t AB[]={'a',' ','b','/'};
HARNESS(h_str_split) { UString s=sym("c",AB,3,0,Q(5,6)); unsigned k=hx_pick("delim",3); UString d=k==0?UString(u" "):k==1?UString(u"a "):UString(u"aa"); std::vector<UString> w=cut(s,d), g=StringUtils::split(s,d); CHECK(g==w,"splitting"); if (k==0) CHECK(StringUtils::split(s)==w,"splitting at blanks"); UString j; for (size_t i=0;i<w.size();i++) { if (i) j+=d; j+=w[i]; } CHECK(StringUtils::join(g,d)==j,"joining"); CHECK(StringUtils::split(j,d)==w || k==2 || k==1,"joining and splitting"); sx_reach(0); if (w.size()>1) sx_reach(1); }
HARNESS(h_str_escaped) { static const uint32_t T[]={'a','/','\\','b'}; UString s=sym("c",T,Q(3,4),0,Q(5,6)); UChar d='/'; std::vector<UString> w; UString cur; for (size_t i=0;i<s.size();i++) { if (s[i]=='\\') { cur.push_back(s[i]); if (i+1<s.size()) cur.push_back(s[++i]); } else if (s[i]==d) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur.push_back(s[i]); } if (!cur.empty()) w.push_back(cur); View v(s,'/'); CHECK(StringUtils::split_escaped(v,d)==w,"splitting with escapes"); sx_reach(0); if (w.size()>1) sx_reach(1); }
HARNESS(h_str_subst) { UString s=sym("c",AB,2,0,Q(5,6)); static const char16_t* const O[]={u"a",u"a ",u"aa",u" a "}; static const char16_t* const N[]={u"",u"a",u"xaay",u" "}; UString o=O[hx_pick("old",4)], n=N[hx_pick("new",4)]; UString w; bool any=false; for (size_t i=0;i<s.size();) { bool hit=i+o.size()<=s.size(); for (size_t k=0;hit && k<o.size();k++) hit=s[i+k]==o[k]; if (hit) { w+=n; i+=o.size(); any=true; } else w.push_back(s[i++]); } CHECK(same16(StringUtils::substitute(s,o,n),w),"replacing"); sx_reach(0); if (any) sx_reach(1); }
HARNESS(h_str_affix) { UString s=sym("c",AB,2,0,3), p=sym("p",AB,2,0,3); bool st=p.size()<=s.size(), en=st; if (st) for (size_t i=0;i<p.size();i++) { st=st&(s[i]==p[i]); en=en&(s[s.size()-p.size()+i]==p[i]); } View v(s,'a'), w(p,'a'); CHECK(StringUtils::startswith(v,w)==st,"beginning of a string"); CHECK(StringUtils::endswith(v,w)==en,"end of a string"); sx_reach(0); if (st && p.size()) sx_reach(1); }
// ---- case; the oracle maps whole strings with room for every expansion
static const uint32_t CT[]={'a','B',0x390,0xfb03,0xdf,0x149,0x130,0x3c3,0x3a3,0x1c6,0x1c5,0x10428,0x10400,0xe9,0xc9,'1',0x1f52,0x131};
static UString big(int k, const UString& s) { UChar b[64]; UErrorCode e=U_ZERO_ERROR; int n = k==0? u_strToLower(b,64,s.data(),(int)s.size(),nullptr,&e) : k==1? u_strToUpper(b,64,s.data(),(int)s.size(),nullptr,&e) : u_strToTitle(b,64,s.data(),(int)s.size(),nullptr,nullptr,&e); return UString(b,n); }
HARNESS(h_str_case) { unsigned k=hx_pick("kind",3); U32 t=str("c",CT,Q(16,18),0,Q(2,3)); UString s=u16(t); View v(s,0x10400&0xffff); UString g = k==0?StringUtils::tolower(v):k==1?StringUtils::toupper(v):StringUtils::totitle(v); CHECK(same16(g,big(k,s)),"changing case"); sx_reach(0); if (g.size()>2*s.size()) sx_reach(1); }
HARNESS(h_str_copycase) { static const uint32_t S[]={'a','B',0x10428,0x10400,0x3a3,'1'}; U32 a=str("s",S,6,0,Q(2,3)); U32 b=str("t",CT,Q(7,16),0,2); UString x=u16(a), y=u16(b); bool f=!a.empty() && u_isupper(a[0]), l=f && a.size()>1 && u_isupper(a.back()); UString pat=hx_u(f?l?"AA":"Aa":"aa"); View v(x,'B'); CHECK(StringUtils::getcase(v)==pat,"the case of a word"); UString w = a.empty() ? y : big(f?l?1:2:0,y); CHECK(same16(StringUtils::copycase(v,y),w),"carrying case over"); sx_reach(0); if (l) sx_reach(1); }
HARNESS(h_str_caseeq) { static const uint32_t S[]={'a','A','b',0xe9,0xc9,'1'}; UString a=sym("a",S,6,0,Q(2,3)), b=sym("b",S,6,0,Q(2,3)); bool w=a.size()==b.size(); if (w) for (size_t i=0;i<a.size();i++) w=w&(u_tolower(a[i])==u_tolower(b[i])); CHECK(StringUtils::caseequal(a,b)==w,"comparing without case"); sx_reach(0); if (w && a.size()) sx_reach(1); }
HARNESS(h_str_num) { static const int V[]={0,7,-1,10,-100,2147483647,-2147483647-1,65536,1000000}; static const char* const X[]={"0","7","-1","10","-100","2147483647","-2147483648","65536","1000000"}; unsigned k=hx_pick("v",9); CHECK(StringUtils::itoa(V[k])==hx_u(X[k]),"number to text"); CHECK(StringUtils::itoa_string(V[k])==X[k],"number to text"); CHECK(StringUtils::stoi(hx_u(X[k]))==V[k],"text to number"); CHECK(StringUtils::stod(hx_u(X[k]))==V[k],"text to number with fraction");
  static const char* const BADI[]={"","x","-"," ","n7"}; unsigned j=hx_pick("bad",5); bool t1=false,t2=false; try { StringUtils::stoi(hx_u(BADI[j])); } catch (const std::invalid_argument&) { t1=true; } try { StringUtils::stod(hx_u(BADI[j])); } catch (const std::invalid_argument&) { t2=true; } CHECK(t1 && t2,"text that is no number is accepted");
  static const double D[]={0.5,-2.25,1e6,0.000001,123456.75}; static const char* const DX[]={"0.500000","-2.250000","1000000.000000","0.000001","123456.750000"}; unsigned q=hx_pick("d",5); CHECK(StringUtils::ftoa(D[q])==hx_u(DX[q]),"weight to text"); CHECK(StringUtils::stod(hx_u(DX[q]))==D[q],"text to weight"); CHECK(std::isinf(StringUtils::stod(u"inf")) && StringUtils::stod(u"inf")>0 && StringUtils::stod(u"-inf")<0 && std::isinf(StringUtils::stod(u"-inf")),"infinite weights"); sx_reach(0); }
HARNESS(h_str_wblank) { static const uint32_t T[]={'a',':',0xe9,';'}; UString a=sym("a",T,4,0,2), b=sym("b",T,4,0,2); bool ea=hx_pick("noa",2), eb=hx_pick("nob",2); UString x=ea?UString():u"[["+a+u"]]", y=eb?UString():u"[["+b+u"]]"; UString w=ea?y:eb?x:u"[["+a+u"; "+b+u"]]"; CHECK(same16(StringUtils::merge_wblanks(x,y),w),"merging word-bound blanks"); sx_reach(0); }
