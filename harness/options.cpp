// Replays Options.tla histories on OptionsList / RegisteredOptions.
#include "mini_json.hpp"
#include "IpOptionsList.hpp"
#include "IpRegOptions.hpp"
#include "IpJournalist.hpp"
using namespace Ipopt;
static SmartPtr<OptionsList> O;
static std::string get(const std::string& t, const std::string& n, const std::string& p, bool reg)
{
   std::string v = "untouched"; bool found = false;
   try
   {
      if( t == "S" ) found = O->GetStringValue(n, v, p);
      else if( t == "N" ) { Number x = -77; found = O->GetNumericValue(n, x, p); char b[50]; snprintf(b, 50, "%.17g", x); v = b; }
      else if( t == "I" ) { Index x = -77; found = O->GetIntegerValue(n, x, p); v = std::to_string(x); }
      else if( t == "B" ) { bool x = false; found = O->GetBoolValue(n, x, p); v = x ? "yes" : "no"; }
      else { Index x = -77; found = O->GetEnumValue(n, x, p); v = std::to_string(x); }
   }
   catch( OPTION_INVALID& ) { return "[\"invalid\"]"; }
   if( !reg && !found ) return "[\"0\"]";
   return "[\"" + std::string(found ? "1" : "0") + "\"," + mj::esc(v) + "]";
}
int main()
{
   SmartPtr<RegisteredOptions> R = new RegisteredOptions();
   R->SetRegisteringCategory("Test", 1);
   R->AddStringOption2("str", "s", "beta", "Alpha", "a", "beta", "b", "");
   R->AddStringOption1("any", "s", "dflt", "*", "anything", "");
   R->AddBoolOption("flag", "s", false, "");
   R->AddBoundedNumberOption("num", "n", 0., true, 2., false, 0.5, "");
   R->AddBoundedIntegerOption("cnt", "c", 0, 10, 3, "");
   SmartPtr<Journalist> J = new Journalist();
   std::string line;
   while( std::getline(std::cin, line) )
   {
      mj::V c = mj::parse(line);
      const mj::V& ops = c["ops"];
      std::string out = "[";
      bool reg = true;
      for( size_t k = 0; k < ops.size(); ++k )
      {
         std::string n = ops[k]["op"].s, r;
         const mj::V& a = ops[k]["a"];
         if( n == "new" ) { reg = a[0].b(); O = new OptionsList(); if( reg ) O->SetRegisteredOptions(R); O->SetJournalist(J); r = "\"\""; }
         else if( n == "set" || n == "setif" )
         {
            std::string t = a[0].s, tag = a[1].s;
            bool cl = a[3].b(), ok = false, ex = false;
            try
            {
               if( n == "set" )
                  ok = t == "S" ? O->SetStringValue(tag, a[2].s, cl) : t == "N" ? O->SetNumericValue(tag, a[2].d(), cl) : O->SetIntegerValue(tag, a[2].i(), cl);
               else
                  ok = t == "S" ? O->SetStringValueIfUnset(tag, a[2].s, cl) : t == "N" ? O->SetNumericValueIfUnset(tag, a[2].d(), cl) : O->SetIntegerValueIfUnset(tag, a[2].i(), cl);
            }
            catch( OPTION_INVALID& ) { ex = true; }
            r = ex ? "\"invalid\"" : ok ? "\"true\"" : "\"false\"";
         }
         else if( n == "unset" ) r = O->UnsetValue(a[0].s) ? "\"true\"" : "\"false\"";
         else if( n == "get" ) r = get(a[0].s, a[1].s, a[2].s, reg);
         else if( n == "read" )
         {
            std::istringstream is(a[0].s);
            try { r = O->ReadFromStream(*J, is, a[1].b()) ? "\"true\"" : "\"false\""; }
            catch( OPTION_INVALID& ) { r = "\"invalid\""; }
         }
         else if( n == "snap" )
            r = "[" + get("S", "str", "", reg) + "," + get("S", "any", "", reg) + "," + get("B", "flag", "", reg) + "," + get("N", "num", "", reg) + "," + get("I", "cnt", "", reg)
                + "," + get("S", "str", "resto.", reg) + "," + get("N", "num", "RESTO.", reg) + "," + get("I", "cnt", "resto.", reg) + "," + get("B", "flag", "Resto.", reg) + "]";
         out += (k ? "," : "") + r;
      }
      std::cout << mj::Obj().i("id", c["id"].i()).raw("r", out + "]").done() << "\n" << std::flush;
   }
}
