// A small model of the parts of libxml2 that lttoolbox uses: the text reader and the tree.  Well-formed input; entities and numeric
// references; comments; no DTDs.  Replays run the real libxml2.
#include <libxml/xmlreader.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
extern std::string* sx_fs_find(const char* name);
static xmlChar* dup(const std::string& s) { char* p=(char*)malloc(s.size()+1); memcpy(p,s.data(),s.size()); p[s.size()]=0; return (xmlChar*)p; }
static xmlNode* mkn(xmlElementType t, const std::string& name, xmlDoc* d) { xmlNode* n=(xmlNode*)calloc(1,sizeof(xmlNode)); n->type=t; n->name=dup(name); n->doc=d; n->line=1; return n; }
static void add(xmlNode* p, xmlNode* c) { c->parent=p; if (!p->children) p->children=c; else { p->last->next=c; c->prev=p->last; } p->last=c; }
static bool isname(char c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='-'||c=='_'||c==':'||c=='.'; }
static bool ws(char c) { return c==' '||c=='\n'||c=='\t'||c=='\r'; }
struct Parse { const std::string& s; size_t i=0; bool bad=false; xmlDoc* doc; Parse(const std::string& t):s(t) {}
  void text(std::string& o, char end, bool attr) { while (i<s.size()) { char c=s[i]; if (c==end) return; if (c=='&') { size_t j=s.find(';',i); if (j==std::string::npos) { bad=true; return; } std::string e=s.substr(i+1,j-i-1); i=j+1;
      if (e=="lt") o+='<'; else if (e=="gt") o+='>'; else if (e=="amp") o+='&'; else if (e=="quot") o+='"'; else if (e=="apos") o+='\''; else if (e.size()>1 && e[0]=='#') { unsigned v=0; if (e[1]=='x') for (size_t k=2;k<e.size();k++) v=v*16+(e[k]<='9'?e[k]-'0':(e[k]|32)-'a'+10); else for (size_t k=1;k<e.size();k++) v=v*10+(e[k]-'0');
        if (v<0x80) o+=(char)v; else if (v<0x800) { o+=(char)(0xc0|v>>6); o+=(char)(0x80|(v&63)); } else if (v<0x10000) { o+=(char)(0xe0|v>>12); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } else { o+=(char)(0xf0|v>>18); o+=(char)(0x80|(v>>12&63)); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } } else bad=true; continue; }
      if (attr && (c=='\n'||c=='\t')) c=' '; if (c=='<' && attr) { bad=true; return; } o+=c; i++; } }
  void content(xmlNode* p) { while (i<s.size() && !bad) { if (s[i]!='<') { std::string t; text(t,'<',false); if (p) { xmlNode* n=mkn(XML_TEXT_NODE,"text",doc); n->content=dup(t); add(p,n); } continue; }
      if (!s.compare(i,4,"<!--")) { size_t j=s.find("-->",i); if (j==std::string::npos) { bad=true; return; } xmlNode* n=mkn(XML_COMMENT_NODE,"comment",doc); n->content=dup(s.substr(i+4,j-i-4)); if (p) add(p,n); i=j+3; continue; }
      if (s[i+1]=='/') return; if (s[i+1]=='?' || s[i+1]=='!') { size_t j=s.find('>',i); if (j==std::string::npos) { bad=true; return; } i=j+1; continue; }
      element(p); if (!p && !bad) { while (i<s.size() && ws(s[i])) i++; if (i<s.size() && s[i]!='<') bad=true; } } }
  void element(xmlNode* p) { i++; std::string nm; while (i<s.size() && isname(s[i])) nm+=s[i++]; if (nm.empty()) { bad=true; return; } xmlNode* n=mkn(XML_ELEMENT_NODE,nm,doc); xmlAttr* la=nullptr;
    while (i<s.size()) { while (i<s.size() && ws(s[i])) i++; if (i>=s.size()) { bad=true; return; } if (s[i]=='/' || s[i]=='>') break; std::string an; while (i<s.size() && isname(s[i])) an+=s[i++]; while (i<s.size() && ws(s[i])) i++; if (an.empty() || i>=s.size() || s[i]!='=') { bad=true; return; } i++; while (i<s.size() && ws(s[i])) i++; if (i>=s.size() || (s[i]!='"' && s[i]!='\'')) { bad=true; return; } char q=s[i++]; std::string v; text(v,q,true); i++;
      xmlAttr* a=(xmlAttr*)calloc(1,sizeof(xmlAttr)); a->type=XML_ATTRIBUTE_NODE; a->name=dup(an); if (!v.empty()) { xmlNode* t=mkn(XML_TEXT_NODE,"text",doc); t->content=dup(v); a->children=t; } if (la) { la->next=a; a->prev=la; } else n->properties=a; la=a; }
    if (p) add(p,n); else { xmlNode* d=(xmlNode*)doc; if (d->children) bad=true; add(d,n); n->parent=nullptr; }
    if (s[i]=='/') { i+=2; n->extra=1; return; } i++; content(n); if (bad || i+1>=s.size() || s[i]!='<') { bad=true; return; } i+=2; std::string e; while (i<s.size() && isname(s[i])) e+=s[i++]; while (i<s.size() && ws(s[i])) i++; if (e!=nm || i>=s.size() || s[i]!='>') { bad=true; return; } i++; } };
static xmlDoc* parse(const char* name, bool& bad) { std::string* f=sx_fs_find(name); if (!f) return nullptr; xmlDoc* d=(xmlDoc*)calloc(1,sizeof(xmlDoc)); d->type=XML_DOCUMENT_NODE; d->URL=dup(name); Parse p(*f); p.doc=d; p.content(nullptr); bad=p.bad || p.i<f->size() || !d->children; return d; }
struct _xmlTextReader { xmlDoc* doc; xmlNode* cur; bool end, bad; int st; };
static bool blank(const xmlChar* c) { for (;*c;c++) if (!ws((char)*c)) return false; return true; }
extern "C" {
static void xfree(void* p) { free(p); }
xmlFreeFunc xmlFree=xfree;
xmlTextReaderPtr xmlReaderForFile(const char* f, const char*, int) { bool bad=false; xmlDoc* d=parse(f,bad); if (!d) return nullptr; _xmlTextReader* r=new _xmlTextReader(); r->doc=d; r->cur=nullptr; r->end=false; r->bad=bad; r->st=0; return r; }
int xmlTextReaderRead(xmlTextReaderPtr r) { if (r->st==2) return r->bad?-1:0; if (r->st==0) { r->st=1; r->cur=r->doc->children; r->end=false; if (!r->cur) { r->st=2; return r->bad?-1:0; } return 1; }
  xmlNode* n=r->cur; if (n->type==XML_ELEMENT_NODE && !r->end && !n->extra) { if (n->children) { r->cur=n->children; return 1; } r->end=true; return 1; }
  r->end=false; if (n->next) { r->cur=n->next; return 1; } if (n->parent && n->parent!=(xmlNode*)r->doc) { r->cur=n->parent; r->end=true; return 1; } r->st=2; r->cur=nullptr; return r->bad?-1:0; }
int xmlTextReaderNodeType(xmlTextReaderPtr r) { xmlNode* n=r->cur; if (!n) return 0; if (n->type==XML_TEXT_NODE) return blank(n->content)?XML_READER_TYPE_SIGNIFICANT_WHITESPACE:XML_READER_TYPE_TEXT; if (n->type==XML_COMMENT_NODE) return XML_READER_TYPE_COMMENT; return r->end?XML_READER_TYPE_END_ELEMENT:XML_READER_TYPE_ELEMENT; }
const xmlChar* xmlTextReaderConstName(xmlTextReaderPtr r) { xmlNode* n=r->cur; if (!n) return nullptr; if (n->type==XML_TEXT_NODE) return (const xmlChar*)"#text"; if (n->type==XML_COMMENT_NODE) return (const xmlChar*)"#comment"; return n->name; }
const xmlChar* xmlTextReaderConstValue(xmlTextReaderPtr r) { xmlNode* n=r->cur; if (!n || n->type==XML_ELEMENT_NODE) return nullptr; return n->content; }
xmlChar* xmlTextReaderGetAttribute(xmlTextReaderPtr r, const xmlChar* a) { xmlNode* n=r->cur; if (!n || n->type!=XML_ELEMENT_NODE) return nullptr; for (xmlAttr* p=n->properties;p;p=p->next) if (!strcmp((const char*)p->name,(const char*)a)) return dup(p->children?(const char*)p->children->content:""); return nullptr; }
int xmlTextReaderIsEmptyElement(xmlTextReaderPtr r) { xmlNode* n=r->cur; return n && n->type==XML_ELEMENT_NODE && !r->end && n->extra; }
int xmlTextReaderGetParserLineNumber(xmlTextReaderPtr) { return 1; }
void xmlFreeTextReader(xmlTextReaderPtr r) { delete r; }
void xmlCleanupParser() {}
int xmlStrlen(const xmlChar* s) { return s?(int)strlen((const char*)s):0; }
int xmlStrEqual(const xmlChar* a, const xmlChar* b) { if (!a || !b) return a==b; return !strcmp((const char*)a,(const char*)b); }
int xmlStrcmp(const xmlChar* a, const xmlChar* b) { if (a==b) return 0; if (!a) return -1; if (!b) return 1; return strcmp((const char*)a,(const char*)b); }
xmlDocPtr xmlReadFile(const char* f, const char*, int) { bool bad=false; xmlDoc* d=parse(f,bad); return bad?nullptr:d; }
xmlNodePtr xmlDocGetRootElement(const xmlDoc* d) { return d->children; }
void xmlSetGenericErrorFunc(void*, xmlGenericErrorFunc) {}
void initGenericErrorDefaultFunc(xmlGenericErrorFunc*) {}
}
