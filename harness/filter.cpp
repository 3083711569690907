// Replays Filter.tla histories on the class Filter; its content is read from what it prints.
#include "mini_json.hpp"
#include "IpFilter.hpp"
#include <cstdarg>
#include <algorithm>
#include <sstream>
using namespace Ipopt;
static std::string text;
struct Sink : public Journal
{
   Sink() : Journal("sink", J_VECTOR) {}
   void PrintImpl(EJournalCategory, EJournalLevel, const char* s) { text += s; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); text += b; }
   void FlushBufferImpl() {}
};

int main()
{
   Journalist j;
   j.AddJournal(new Sink());
   std::string line;
   // small integers of the specification stand for numbers in increasing order
   const Number map[] = {-INFINITY, -1e300, -1.5, 0., 4.9406564584124654e-324, 1e-8, 1., 1.0000000000000002, 1e300, INFINITY};
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      std::string out = "[";
      Filter* f = NULL;
      int dim = 0;
      const mj::V& ops = c["ops"];
      for( size_t k = 0; k < ops.size(); ++k )
      {
         std::string n = ops[k]["op"].s, r;
         std::vector<Number> v;
         if( n != "new" ) for( auto& x : ops[k]["a"].a ) v.push_back(map[x.i()]);
         if( n == "new" ) { dim = (int) ops[k]["a"][0].i(); f = new Filter(dim); }
         else if( n == "ask" ) r = dim == 2 && k % 2 ? (f->Acceptable(v[0], v[1]) ? "1" : "0") : (f->Acceptable(v) ? "1" : "0");
         else if( n == "clear" ) { f->Clear(); }
         else
         {
            if( dim == 2 && k % 2 ) f->AddEntry(v[0], v[1], (int) k); else f->AddEntry(v, (int) k);
         }
         if( n == "add" || n == "clear" )
         {
            text = "";
            f->Print(j);
            std::istringstream is(text);
            std::string l;
            std::getline(is, l);
            int cnt = -1, seen = 0;
            sscanf(l.c_str(), "The current filter has %d", &cnt);
            std::vector<std::pair<long, std::string> > rows;
            while( std::getline(is, l) )
            {
               if( l.find("phi") != std::string::npos ) continue;
               std::istringstream ls(l);
               std::string w;
               ls >> w; seen++;
               std::string row = "[";
               for( int i = 0; i < dim; ++i )
               {
                  ls >> w;
                  double d = strtod(w.c_str(), 0);
                  int z = -1;
                  for( int q = 0; q < 10; ++q ) if( map[q] == d ) z = q;
                  row += std::to_string(z) + ",";
               }
               ls >> w;
               rows.push_back(std::make_pair(atol(w.c_str()), row + w + "]"));
            }
            std::sort(rows.begin(), rows.end());
            for( auto& x : rows ) r += (r.empty() ? "" : ",") + x.second;
            if( seen != cnt ) r += (r.empty() ? "" : ",") + ("\"count " + std::to_string(cnt) + "\"");
         }
         out += (k ? "," : "") + ("[" + r + "]");
      }
      delete f;
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out + "]").done() << std::endl;
   }
}
