#include <regex>
#include <iostream>
#include <fstream>
#include <string>
#include <vector>
using namespace std;
static string rd(istream& f){ size_t n; f>>n; f.get(); string s(n,0); f.read(&s[0],n); return s; }
static void wr(const string& s){ cout<<s.size()<<':'<<s<<' '; }
int main(int c,char**v){ ifstream f(v[1]); string mode; while(f>>mode){ int sub; f>>sub; f.get(); string rx=rd(f); string s=rd(f);
 regex r(rx);
 if(mode=="t"){ sregex_token_iterator it(s.begin(),s.end(),r,sub),e; for(;it!=e;++it) wr(*it); }
 else if(mode=="s"){ smatch m; if(regex_search(s,m,r)){ wr(m.prefix().str()); wr(m.suffix().str()); } else cout<<"none "; }
 else if(mode=="r") wr(regex_replace(s,r,sub?"<\\.>":""));
 else { smatch m; if(regex_match(s,m,r)){ for(size_t i=0;i<m.size();i++) wr(m[i].str()); } else cout<<"none "; }
 cout<<"\x01\n"; } }
