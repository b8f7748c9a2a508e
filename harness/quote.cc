// lt-merge and lt-merge -u.
#include "tools.h"
int lt_merge_main(int, char**);
struct Unit { std::string blank, wb; U32 sf; bool beg, end; std::string extra; bool null=false; };
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if ((unsigned char)c<0x80 && reserved((unsigned char)c)) o+='\\'; o+=c; } return o; }
static std::string form(const Unit& u) { std::string o; for (auto c : u.sf) { if (reserved(c)) o+='\\'; put8(o,c); } return o; }
static std::string read_of(const Unit& u) { std::string o=u.extra; if (u.beg) o+="<MERGE_BEG>"; if (u.end) o+="<MERGE_END>"; return o; }
static std::string stream_of(const std::vector<Unit>& U, const std::string& tail) { std::string o; for (auto& u : U) { o+=u.blank+u.wb+"^"+form(u)+"/"+read_of(u)+"$"; if (u.null) o+='\0'; } return o+tail; }
// what the stream looks like merged; plain: the surface text instead, as unmerging has to give it back
static std::string ref(const std::vector<Unit>& U, const std::string& tail, bool plain, bool readings) { std::string o, acc, txt; bool on=false, first=true;
  auto close=[&]{ if (on) { o+=plain?txt:readings?"^"+acc+"<MERGED>/"+acc+"$":"^"+acc+"/"+acc+"<MERGED>$"; } on=false; acc.clear(); txt.clear(); first=true; };
  for (size_t i=0;i<U.size();i++) { auto& u=U[i]; if (u.beg) on=true; if (!on) o+=u.blank+u.wb+"^"+form(u)+"/"+read_of(u)+"$"; else { if (first) o+=u.blank+u.wb; else { acc+=esc(u.blank)+esc(u.wb); txt+=u.blank+u.wb; if (!u.wb.empty()) { acc+="\\^\\$"; txt+="^$"; } } first=false; acc+=esc(form(u)); txt+=form(u); }
    if (u.end) close(); if (u.null) { close(); o+='\0'; } }
  if (on) { acc+=esc(tail); txt+=tail; close(); } else o+=tail; return o; }
static const uint32_t QT[]={'a',0xe9,'/','[','$','\\',0x1f600,'"','<'};
static const char* const BL[]={""," ","[<b>]","\\^ ","[\\]/] "};
static Unit unit(unsigned nt, unsigned nl, bool tags) { Unit u; u.blank=BL[hx_pick("blank",nl)]; u.wb=hx_pick("wb",2)?"[[t:b]]":""; u.sf={hx_char("c",QT,nt)}; unsigned k=tags?hx_pick("tags",4):0; u.beg=k&1; u.end=k&2; u.extra="x<n>"; return u; }
static std::string merge(const std::string& in, bool un) { FSTProcessor fp; fp.setNullFlush(true); fp.initBiltrans(); return proc_run(in,[&](InputFile& i, UFILE* u){ if (un) fp.quoteUnmerge(i,u); else fp.quoteMerge(i,u); }); }
static void go(const std::vector<Unit>& U, const std::string& tail) { std::string out=merge(stream_of(U,tail),false); CHECK(same(out,ref(U,tail,false,false)),"merging changed something else than the quoted units, or lost part of their text"); std::string back=merge(ref(U,tail,false,true),true); CHECK(same(back,ref(U,tail,true,false)),"unmerging does not give back the surface text"); }
HARNESS(h_merge) { std::vector<Unit> U; unsigned n=1+hx_pick("n",Q(2,3)); for (unsigned i=0;i<n;i++) U.push_back(unit(Q(7,9),2+(i>0),true)); go(U,"\n"); sx_reach(0); }
HARNESS(h_merge_blank) { Unit a=unit(3,2,false), b=unit(9,5,false); a.beg=true; b.end=hx_pick("end",2); if (hx_pick("two",2)) b.sf.push_back(hx_char("c2",QT,9)); go({a,b},hx_pick("tail",2)?" [\\/]":""); sx_reach(0); }
HARNESS(h_merge_three) { Unit a=unit(1,1,true), b=unit(1,2,true), c=unit(2,2,true); b.wb=""; go({a,b,c},""); sx_reach(0); }
HARNESS(h_merge_null) { Unit a=unit(2,2,true), b=unit(2,2,true); a.wb=b.wb=""; a.null=hx_pick("n1",2); b.null=hx_pick("n2",2); Unit c=unit(1,1,false); c.wb=""; go({a,b,c},"."); sx_reach(0); }
// units that are not merged, in any form, come through unchanged in both directions
HARNESS(h_merge_other) { static const char* const O[]={"^a/*a$","^a<n>/b<n>/@c$","^$","^/$","^\\^\\//*\\^\\/$","^a/#a<n>$^b/=b$","[[t]]^a<x>$[[/]] ","^a+b<n># c/d$","plain \\[text\\]","[[t]][x]^%a/%a$"}; std::string in; for (unsigned i=0;i<2;i++) { in+=O[hx_pick("o",10)]; in+=BL[hx_pick("bl",4)]; if (i==0 && hx_pick("nul",2)) in+='\0'; } bool un=hx_pick("un",2); CHECK(merge(in,un)==in,"a unit that has nothing to do with merging was changed"); sx_reach(0); }
HARNESS(h_merge_main) { Unit a=unit(3,2,false), b=unit(9,3,true); a.beg=true; std::vector<Unit> U={a,b}; bool un=hx_pick("un",2); hx_file_put("i",un?ref(U,"\n",false,true):stream_of(U,"\n")); std::vector<std::string> v={"lt-merge"}; if (un) v.push_back(hx_pick("long",2)?"--unmerge":"-u"); v.push_back(pth("i")); v.push_back(pth("o")); CHECK(run_main(lt_merge_main,v)==0,"lt-merge failed"); std::string o; CHECK(hx_file_get("o",o),"no output"); CHECK(same(o,ref(U,"\n",un,false)),"lt-merge printed something else"); sx_reach(0); }
