#ifndef STUB_DATABASE
#define STUB_DATABASE
// stand-in for SAMRAI's input database (library absent in this sandbox)
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace SAMRAI
{
namespace tbox
{
class Database
{
 public:
   std::map<std::string, std::vector<double> > num;
   std::map<std::string, std::string> str;
   std::map<std::string, std::shared_ptr<Database> > sub;
   bool keyExists(const std::string& k)
   {
      return num.count(k) || str.count(k) || sub.count(k);
   }
   bool isDouble(const std::string& k) { return num.count(k) > 0; }
   bool isString(const std::string& k) { return str.count(k) > 0; }
   std::vector<std::string> getStringVector(const std::string& k) { return std::vector<std::string>(1, str.at(k)); }
   bool isDatabase(const std::string& k) { return sub.count(k) > 0; }
   std::shared_ptr<Database> getDatabase(const std::string& k) { return sub.at(k); }
   std::string getString(const std::string& k) { return str.at(k); }
   std::string getStringWithDefault(const std::string& k, const std::string& d)
   {
      return str.count(k) ? str.at(k) : d;
   }
   bool getBool(const std::string& k) { return num.at(k)[0] != 0.; }
   bool getBoolWithDefault(const std::string& k, bool d) { return num.count(k) ? num.at(k)[0] != 0. : d; }
   int getInteger(const std::string& k) { return (int)num.at(k)[0]; }
   int getIntegerWithDefault(const std::string& k, int d) { return num.count(k) ? (int)num.at(k)[0] : d; }
   double getDouble(const std::string& k) { return num.at(k)[0]; }
   double getDoubleWithDefault(const std::string& k, double d) { return num.count(k) ? num.at(k)[0] : d; }
   size_t getArraySize(const std::string& k) { return num.count(k) ? num.at(k).size() : 0; }
   void getDoubleArray(const std::string& k, double* p, size_t n)
   {
      for (size_t i = 0; i < n; i++) p[i] = num.at(k).at(i);
   }
   void getIntegerArray(const std::string& k, int* p, size_t n)
   {
      for (size_t i = 0; i < n; i++) p[i] = (int)num.at(k).at(i);
   }
   std::vector<double> getDoubleVector(const std::string& k) { return num.at(k); }
};
typedef Database MemoryDatabase;
}
}
#endif
