// XML dictionaries as plain data, their meaning as a set of weighted string pairs, and their text.
#pragma once
#include "fstm.h"
#include "proc.h"
#include <lttoolbox/compiler.h>
enum { EP, EI, EG, EPAR, ERE };
struct El { int k; U32 l, r; std::string par; std::vector<U32> alts; };
struct En { std::vector<El> e; std::string r, alt, v, vl, vr; bool ig=false; double w=0; };
struct Par { std::string n; std::vector<En> es; };
struct Sec { std::string id, type; std::vector<En> es; };
struct Dix { std::string letters="ab"; std::vector<Par> ps; std::vector<Sec> ss; };
struct DOpt { bool rl=false; std::string alt, var, vl, vr; };
static inline El pr(const char* l, const char* r) { return {EP,u32_of(l),u32_of(r),"",{}}; }
static inline El id(const char* s) { return {EI,u32_of(s),u32_of(s),"",{}}; }
static inline El ig(const char* s) { El e{EG,u32_of(s),u32_of(s),"",{}}; e.r.insert(e.r.begin(),'#'); return e; }
static inline El par(const char* n) { return {EPAR,{},{},n,{}}; }
static inline El re(const char* s, const std::vector<const char*>& a) { El e{ERE,{},{},s,{}}; for (auto x : a) e.alts.push_back(u32_of(x)); return e; }
static inline En en(const std::vector<El>& e, double w=0) { En x; x.e=e; x.w=w; return x; }
struct Trip { U32 l, r; double w; };
static bool among(const std::string& list, const std::string& x) { size_t i=0; while (i<=list.size()) { size_t j=list.find(' ',i); if (j==std::string::npos) j=list.size(); if (list.substr(i,j-i)==x) return true; i=j+1; } return false; }
static bool kept(const En& e, const DOpt& o) { return !e.ig && (e.r.empty() || e.r==(o.rl?"RL":"LR")) && (e.alt.empty() || among(e.alt,o.alt)) && (e.v.empty() || o.var.empty() || among(e.v,o.var)) && (!o.rl || e.vl.empty() || among(e.vl,o.vl)) && (o.rl || e.vr.empty() || among(e.vr,o.vr)); }
static void meaning(const Dix& d, const std::vector<En>& es, const DOpt& o, std::vector<Trip>& out) {
  for (auto& e : es) { if (!kept(e,o) || e.e.empty()) continue; std::vector<Trip> cur={{{},{},e.w}}; for (auto& x : e.e) { std::vector<Trip> nx; std::vector<Trip> opt; if (x.k==EPAR) { for (auto& p : d.ps) if (p.n==x.par) meaning(d,p.es,o,opt); } else if (x.k==ERE) { for (auto& a : x.alts) opt.push_back({a,a,0}); } else opt.push_back({x.l,x.r,0});
      for (auto& c : cur) for (auto& p : opt) { Trip t=c; t.l.insert(t.l.end(),p.l.begin(),p.l.end()); t.r.insert(t.r.end(),p.r.begin(),p.r.end()); t.w+=p.w; nx.push_back(t); } cur=nx; } out.insert(out.end(),cur.begin(),cur.end()); } }
// LITX|c: the character c as text although c is also the name of an element; MB: a morpheme boundary
static const uint32_t LITX=0x40000000, MB=0x30000000;
static std::string esc_x(uint32_t c) { std::string o; if (c==MB) return "<m/>"; if (c&LITX) { put8(o,c&~LITX); return o; } if (istag(c)) { std::string t=TAGS[c-TAG0]; return "<s n=\""+t.substr(1,t.size()-2)+"\"/>"; } switch (c) { case ' ': return "<b/>"; case '+': return "<j/>"; case '~': return "<a/>"; case '<': return "&lt;"; case '&': return "&amp;"; case '>': return "&gt;"; } put8(o,c); return o; }
static std::string side(const U32& s, size_t from=0) { std::string o; for (size_t i=from;i<s.size();i++) { if (s[i]=='#' && from==0) { o+="<g>"; for (i++;i<s.size() && !istag(s[i]);i++) o+=esc_x(s[i]); o+="</g>"; i--; } else o+=esc_x(s[i]); } return o; }
static std::string numstr(double w) { char b[40]; snprintf(b,40,"%g",w); return b; }
static std::string xml_en(const En& e, const char* gap) { std::string o="<e"; auto at=[&](const char* n, const std::string& v){ if (!v.empty()) { o+=std::string(" ")+n+"=\""+v+"\""; } }; at("r",e.r); at("alt",e.alt); at("v",e.v); at("vl",e.vl); at("vr",e.vr); if (e.ig) at("i","yes"); if (e.w!=0) at("w",numstr(e.w)); o+=">"; o+=gap;
  for (auto& x : e.e) { switch (x.k) { case EP: o+="<p><l>"+side(x.l)+"</l>"+gap+"<r>"+side(x.r)+"</r></p>"; break; case EI: o+="<i>"+side(x.l)+"</i>"; break; case EG: o+="<ig>"+side(x.l)+"</ig>"; break; case EPAR: o+="<par n=\""+x.par+"\"/>"; break; default: o+="<re>"+x.par+"</re>"; } o+=gap; } return o+"</e>"+gap; }
static std::string xml_of(const Dix& d, const char* gap="") { std::string o="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<dictionary>"; o+=gap; o+="<alphabet>"+d.letters+"</alphabet>"+gap+"<sdefs>"; for (unsigned k=0;k<3;k++) { std::string t=TAGS[k]; o+="<sdef n=\""+t.substr(1,t.size()-2)+"\"/>"; } o+=std::string("</sdefs>")+gap; if (!d.ps.empty()) { o+="<pardefs>"; for (auto& p : d.ps) { o+="<pardef n=\""+p.n+"\">"+gap; for (auto& e : p.es) o+=xml_en(e,gap); o+="</pardef>"; } o+="</pardefs>"; } for (auto& s : d.ss) { o+="<section id=\""+s.id+"\" type=\""+s.type+"\">"+gap; for (auto& e : s.es) o+=xml_en(e,gap); o+=std::string("</section>")+gap; } return o+"</dictionary>\n"; }
// the relation of a transducer and of a list of pairs on all prefixes of the (symbolic) strings u and v
static int code_in(Alphabet& al, uint32_t c) { return istag(c)?al(hx_u(TAGS[c-TAG0])):(int)c; }
static void rel_pairs(Alphabet& al, const std::vector<Trip>& ts, bool swap, const int* u, const int* v, int n, int* out) { for (int i=0;i<(n+1)*(n+1);i++) out[i]=IINF; for (auto& t : ts) { const U32 &l=swap?t.r:t.l, &r=swap?t.l:t.r; if ((int)l.size()>n || (int)r.size()>n) continue; bool ok=true; for (size_t i=0;i<l.size();i++) ok=ok&(u[i]==code_in(al,l[i])); for (size_t i=0;i<r.size();i++) ok=ok&(v[i]==code_in(al,r[i])); int& c=out[l.size()*(n+1)+r.size()]; c=imin(c,isel(ok,(int)(t.w*4),IINF)); } }
static void rel_trans(Transducer& t, const Alphabet& al, const int* u, const int* v, int n, int* out) { M m=mfrom(t); mbest2q(m,u,n,v,n,out,[&](int k){ return al.decode(k); }); }
static bool eqv(const int* a, const int* b, int n) { bool ok=true; for (int i=0;i<n;i++) ok=ok&(a[i]==b[i]); return ok; }
// does the meaning have an empty or blank beginning on the side that is read? (such dictionaries are refused)
static bool refused(const std::vector<Trip>& ts, bool rl) { for (auto& t : ts) { const U32& s=rl?t.r:t.l; if (s.empty() || s[0]==' ') return true; } return false; }
struct Loaded { Alphabet al; std::set<UChar32> letters; std::map<UString,Transducer> ts; };
static void load_bytes(Loaded& L, const std::string& b) { FILE* f=hx_reader(b); readTransducerSet(f,L.letters,L.al,L.ts); fclose(f); }
static std::string compile(const std::string& xml, const DOpt& o) { hx_file_put("d.dix",xml); Compiler c; c.setAltValue(hx_u(o.alt.c_str())); c.setVariantValue(hx_u(o.var.c_str())); c.setVariantLeftValue(hx_u(o.vl.c_str())); c.setVariantRightValue(hx_u(o.vr.c_str())); c.parse(hx_path("d.dix"),o.rl?u"RL":u"LR"); HxOut w; c.write(w.f); return w.done(); }
