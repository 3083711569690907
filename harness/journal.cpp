// Replays Journal.tla histories on Journalist and Journals (file, stream, custom).
#include "mini_json.hpp"
#include "IpJournalist.hpp"
#include <fstream>
#include <cstdarg>
#include <unistd.h>
using namespace Ipopt;
struct Custom : public Journal
{
   std::string text; int prints = 0;
   Custom(const std::string& n, EJournalLevel l) : Journal(n, l) { }
   void PrintImpl(EJournalCategory, EJournalLevel, const char* s) { text += s; }
   void PrintfImpl(EJournalCategory, EJournalLevel, const char* f, va_list ap) { std::vector<char> b(100000); vsnprintf(b.data(), b.size(), f, ap); text += b.data(); }
   void FlushBufferImpl() { }
};
static std::string words(const std::string& s) { std::istringstream i(s); std::string w, r; while( i >> w ) r += w + " "; return r; }
int main(int argc, char** argv)
{
   std::string dir = argc > 1 ? argv[1] : "/tmp";
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      int id = c["id"].i();
      const mj::V& ops = c["ops"];
      std::string out = "[";
      SmartPtr<Journalist> J = new Journalist();
      SmartPtr<Journal> jr[5];
      std::ostringstream os[5];
      std::string fn[5];
      std::ifstream in[5];
      size_t cpos[5] = {0, 0, 0, 0, 0}, opos[5] = {0, 0, 0, 0, 0};
      int variant[5] = {0, 0, 0, 0, 0};     // 1 file via journalist, 2 custom, 3 stream, 4 file
      int nfile = 0;
      auto fresh = [&](int s)   // new text of slot s
      {
         std::string r;
         if( variant[s] == 2 ) { Custom* cu = static_cast<Custom*>(GetRawPtr(jr[s])); r = cu->text.substr(cpos[s]); cpos[s] = cu->text.size(); }
         else if( variant[s] == 3 ) { std::string t = os[s].str(); r = t.substr(opos[s]); opos[s] = t.size(); }
         else if( variant[s] == 1 || variant[s] == 4 )
         {
            in[s].clear();
            r.assign(std::istreambuf_iterator<char>(in[s]), std::istreambuf_iterator<char>());
         }
         return r;
      };
      for( size_t k = 0; k < ops.size(); ++k )
      {
         std::string n = ops[k]["op"].s;
         const mj::V& a = ops[k]["a"];
         std::string r = "0";
         if( n == "create" || n == "addfile" )
         {
            int s = a[0].i();
            EJournalLevel l = (EJournalLevel) a[2].i();
            in[s].close(); os[s].str(""); cpos[s] = opos[s] = 0;
            bool viaj = n == "addfile";
            int v = viaj ? 1 : 2 + (int) ((k + id + s) % 3);
            if( v == 1 || v == 4 )
            {
               fn[s] = dir + "/j" + std::to_string(getpid()) + "_" + std::to_string(nfile++);
               unlink(fn[s].c_str());
            }
            if( viaj )
            {
               SmartPtr<Journal> x = J->AddFileJournal(a[1].s, fn[s], l);
               r = IsValid(x) ? "1" : "0";
               jr[s] = x;
               if( IsNull(x) ) v = 0;
            }
            else if( v == 2 ) jr[s] = new Custom(a[1].s, l);
            else if( v == 3 ) { StreamJournal* sj = new StreamJournal(a[1].s, l); sj->SetOutputStream(&os[s]); jr[s] = sj; }
            else { FileJournal* f = new FileJournal(a[1].s, l); f->Open(fn[s].c_str()); jr[s] = f; }
            variant[s] = v;
            if( v == 1 || v == 4 ) { jr[s]->FlushBuffer(); in[s].open(fn[s]); unlink(fn[s].c_str()); }
            else if( viaj ) unlink(fn[s].c_str());
         }
         else if( n == "add" ) r = J->AddJournal(jr[a[0].i()]) ? "1" : "0";
         else if( n == "get" )
         {
            SmartPtr<Journal> x = J->GetJournal(a[0].s);
            int s = 0;
            if( IsValid(x) ) { s = -1; for( int i = 1; i < 5; ++i ) if( jr[i] == x ) s = i; if( x->Name() != a[0].s ) s = -2; }
            r = std::to_string(s);
         }
         else if( n == "setlevel" ) jr[a[0].i()]->SetPrintLevel((EJournalCategory) a[1].i(), (EJournalLevel) a[2].i());
         else if( n == "setall" ) jr[a[0].i()]->SetAllPrintLevels((EJournalLevel) a[1].i());
         else if( n == "delall" ) J->DeleteAllJournals();
         else if( n == "produce" ) r = J->ProduceOutput((EJournalLevel) a[1].i(), (EJournalCategory) a[0].i()) ? "1" : "0";
         else
         {
            EJournalCategory cat = (EJournalCategory) a[0].i();
            EJournalLevel l = (EJournalLevel) a[1].i();
            std::string want;
            char b[200];
            int num = (int) (id * 131 + k);
            if( n == "printf" )
            {
               // sometimes a long message
               int pad = k % 4 == 3 ? 5000 + 900 * (int) (k % 50) : 3;
               std::string big(pad, 'x');
               J->Printf(l, cat, "m%d %s %.3f %s\n", num, "str", num * 0.5, big.c_str());
               snprintf(b, 200, "m%d %s %.3f ", num, "str", num * 0.5);
               want = b + big + "\n";
            }
            else if( n == "indented" )
            {
               int ind = (int) (k % 4);
               J->PrintfIndented(l, cat, ind, "m%d %s|", num, "in");
               for( int i = 0; i < ind; ++i ) want += "  ";
               snprintf(b, 200, "m%d %s|", num, "in");
               want += b;
            }
            else
            {
               int nw = 3 + (int) (k % 25);
               for( int i = 0; i < nw; ++i ) want += (i ? " " : "") + std::string("w") + std::string(1 + (i * 7 + num) % 9, 'a' + (i + num) % 26) + std::to_string(i);
               J->PrintStringOverLines(l, cat, 4, 20 + (int) (k % 30), want);
               want = words(want);
            }
            J->FlushBuffer();
            std::vector<int> got;
            for( int s = 1; s < 5; ++s )
            {
               if( variant[s] == 1 || variant[s] == 4 ) jr[s]->FlushBuffer();
               std::string t = fresh(s);
               if( t.empty() ) continue;
               if( n == "overlines" ) t = words(t);
               got.push_back(t == want ? s : 100 + s);
            }
            r = mj::ints(got);
         }
         out += (k ? "," : "") + r;
      }
      std::cout << mj::Obj().i("id", id).raw("r", out + "]").done() << "\n" << std::flush;
   }
}
