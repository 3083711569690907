// Replays Cache.tla histories on CachedResults, TaggedObject and Observer/Subject.
#include "mini_json.hpp"
#include "IpCachedResults.hpp"
#include "IpTaggedObject.hpp"
#include <new>
using namespace Ipopt;
struct Obj : public TaggedObject { void touch() { ObjectChanged(); } };
static std::vector<int> g_notes;      // watcher ids notified
static char g_expect = 0;
struct Watch : public Observer
{
   int id; bool bad = false;
   Watch(int i) : id(i) { }
   void attach(const Subject* s) { RequestAttach(NT_All, s); }
   void detach(const Subject* s) { RequestDetach(NT_All, s); }
   void ReceiveNotification(NotifyType t, const Subject*) { g_notes.push_back(t == (g_expect == 'c' ? NT_Changed : NT_BeingDestroyed) ? id : -id); }
};
struct Slot { alignas(Obj) char mem[sizeof(Obj)]; Obj* o = NULL; unsigned tag = 0; };

int main()
{
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      std::string out = "[";
      {
         Slot slot[6];
         Watch* w[6] = { NULL, new Watch(1), new Watch(2), new Watch(3), NULL, NULL };
         CachedResults<int>* cr = NULL;
         const mj::V& ops = c["ops"];
         for( size_t k = 0; k < ops.size(); ++k )
         {
            const mj::V& op = ops[k];
            std::string n = op["op"].s;
            std::vector<int> a, r;
            for( auto& x : op["a"].a ) a.push_back((int) x.i());
            std::vector<const TaggedObject*> d;
            std::vector<Number> sc;
            if( n == "add" || n == "get" || n == "invalidate" )
            {
               size_t i = 0;
               for( ; a[i] != -1; ++i ) d.push_back(a[i] ? slot[a[i]].o : NULL);
               for( ++i; i < a.size(); ++i ) sc.push_back(a[i]);
            }
            g_notes.clear();
            if( n == "new" ) { delete cr; cr = new CachedResults<int>(a[0]); }
            else if( n == "create" ) slot[a[0]].o = new (slot[a[0]].mem) Obj();
            else if( n == "change" || n == "destroy" )
            {
               g_expect = n[0];
               Obj*& o = slot[a[0]].o;
               if( n == "change" ) o->touch(); else { o->~Obj(); o = NULL; }
               std::sort(g_notes.begin(), g_notes.end());
               r = g_notes;
            }
            else if( n == "add" )
            {
               int res = (int) op["r"].a[0].i();
               if( !sc.empty() || k % 2 ) cr->AddCachedResult(res, d, sc);
               else if( d.size() == 1 ) cr->AddCachedResult1Dep(res, d[0]);
               else if( d.size() == 2 ) cr->AddCachedResult2Dep(res, d[0], d[1]);
               else if( d.size() == 3 ) cr->AddCachedResult3Dep(res, d[0], d[1], d[2]);
               else cr->AddCachedResult(res, d);
               r.push_back(res);
            }
            else if( n == "get" )
            {
               int res = -5; bool f;
               if( !sc.empty() || k % 2 ) f = cr->GetCachedResult(res, d, sc);
               else if( d.size() == 1 ) f = cr->GetCachedResult1Dep(res, d[0]);
               else if( d.size() == 2 ) f = cr->GetCachedResult2Dep(res, d[0], d[1]);
               else if( d.size() == 3 ) f = cr->GetCachedResult3Dep(res, d[0], d[1], d[2]);
               else f = cr->GetCachedResult(res, d);
               if( f ) r.push_back(res); else if( res != -5 ) r.push_back(-99);
            }
            else if( n == "invalidate" ) r.push_back(cr->InvalidateResult(d, sc));
            else if( n == "clear" ) { if( a.empty() ) cr->Clear(); else cr->Clear(a[0]); }
            else if( n == "attach" ) w[a[0]]->attach(slot[a[1]].o);
            else if( n == "detach" ) w[a[0]]->detach(slot[a[1]].o);
            else if( n == "kill" ) { delete w[a[0]]; w[a[0]] = NULL; }
            else if( n == "revive" ) w[a[0]] = new Watch(a[0]);
            else if( n == "tag" ) slot[a[0]].tag = slot[a[0]].o->GetTag();
            else if( n == "changed" ) r.push_back(slot[a[0]].o->HasChanged(slot[a[0]].tag));
            out += (k ? "," : "") + mj::ints(r);
         }
         out += "]";
         // tear down in an order that differs between cases
         if( c["id"].i() % 2 ) delete cr;
         for( auto& s : slot ) if( s.o ) s.o->~Obj();
         if( c["id"].i() % 2 == 0 ) delete cr;
         for( auto* x : w ) delete x;
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out).done() << "\n" << std::flush;
   }
}
