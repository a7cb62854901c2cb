#ifndef STUB_MINI
#define STUB_MINI
// Functional stand-in for the parts of SAMRAI the verified methods use (the
// library is absent in this sandbox).  Patch data are views of arrays owned by
// the caller, laid out as SAMRAI lays them out: column-major over the ghost
// box, components slowest.
#include <array>
#include <cassert>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "SAMRAI/tbox/Database.h"
#include "SAMRAI/tbox/PIO.h"
#include "SAMRAI/tbox/Utilities.h"
#define TBOX_ASSERT_OBJDIM_EQUALITY2(a, b)
#define TBOX_ASSERT_OBJDIM_EQUALITY3(a, b, c)
#define TBOX_ASSERT_OBJDIM_EQUALITY4(a, b, c, d)
namespace SAMRAI
{
template <class T, class U>
std::shared_ptr<T> SAMRAI_SHARED_PTR_CAST(const std::shared_ptr<U>& p)
{
   return std::dynamic_pointer_cast<T>(p);
}
const int MAX_DIM_VAL = 3;
namespace tbox
{
class SAMRAI_MPI
{
 public:
   static const SAMRAI_MPI& getSAMRAIWorld()
   {
      static SAMRAI_MPI m;
      return m;
   }
   static void abort() { std::abort(); }
   int getRank() const { return 0; }
   int getSize() const { return 1; }
   template <class T>
   int AllReduce(T*, int, int, int* = nullptr) const
   {
      return 0;
   }
   template <class... A>
   int Bcast(A...) const
   {
      return 0;
   }
   template <class... A>
   int Allreduce(A...) const
   {
      return 0;
   }
};
class Dimension
{
 public:
   explicit Dimension(int d = NDIM) : d_dim(d) {}
   int getValue() const { return d_dim; }
   bool operator==(const Dimension& o) const { return d_dim == o.d_dim; }

 private:
   int d_dim;
};
class IEEE
{
 public:
   static double getSignalingNaN() { return std::numeric_limits<double>::quiet_NaN(); }
};
class Timer
{
 public:
   void start() {}
   void stop() {}
};
class TimerManager
{
 public:
   static TimerManager* getManager()
   {
      static TimerManager m;
      return &m;
   }
   std::shared_ptr<Timer> getTimer(const std::string&) { return std::make_shared<Timer>(); }
};
class InputManager
{
 public:
   static InputManager* getManager()
   {
      static InputManager m;
      return &m;
   }
   void parseInputFile(const std::string&, std::shared_ptr<Database>) {}
};
class Serializable
{
};
}
namespace hier
{
class IntVector
{
 public:
   explicit IntVector(const tbox::Dimension&, int v = 0)
   {
      for (int i = 0; i < NDIM; i++)
         d_v[i] = v;
   }
   IntVector(int i, int j)
   {
      d_v[0] = i;
      d_v[1] = j;
      for (int k = 2; k < NDIM; k++)
         d_v[k] = 0;
   }
   IntVector(int i, int j, int k)
   {
      d_v[0] = i;
      d_v[1] = j;
      d_v[NDIM - 1] = NDIM == 3 ? k : j;
   }
   int& operator[](unsigned int i) { return d_v[i]; }
   const int& operator[](unsigned int i) const { return d_v[i]; }
   int& operator()(unsigned int i) { return d_v[i]; }
   const int& operator()(unsigned int i) const { return d_v[i]; }
   bool operator==(const IntVector& o) const
   {
      for (int i = 0; i < NDIM; i++)
         if (d_v[i] != o.d_v[i]) return false;
      return true;
   }
   bool operator!=(const IntVector& o) const { return !(*this == o); }
   int max() const
   {
      int m = d_v[0];
      for (int i = 1; i < NDIM; i++)
         m = d_v[i] > m ? d_v[i] : m;
      return m;
   }
   int min() const
   {
      int m = d_v[0];
      for (int i = 1; i < NDIM; i++)
         m = d_v[i] < m ? d_v[i] : m;
      return m;
   }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   static IntVector getOne(const tbox::Dimension& d) { return IntVector(d, 1); }
   static IntVector getZero(const tbox::Dimension& d) { return IntVector(d, 0); }

 private:
   int d_v[NDIM];
};
class Index : public IntVector
{
 public:
   Index(const tbox::Dimension& d, int v = 0) : IntVector(d, v) {}
   Index(int i, int j) : IntVector(i, j) {}
   Index(int i, int j, int k) : IntVector(i, j, k) {}
   Index(const IntVector& v) : IntVector(v) {}
};
class Box
{
 public:
   Box() : d_lo(tbox::Dimension(), 0), d_hi(tbox::Dimension(), -1) {}
   explicit Box(const tbox::Dimension& d) : d_lo(d, 0), d_hi(d, -1) {}
   Box(const Index& lo, const Index& hi, int = 0) : d_lo(lo), d_hi(hi) {}
   const Index& lower() const { return d_lo; }
   const Index& upper() const { return d_hi; }
   void setUpper(const Index& v) { d_hi = v; }
   void setLower(const Index& v) { d_lo = v; }
   int lower(int i) const { return d_lo[i]; }
   int upper(int i) const { return d_hi[i]; }
   void setUpper(int i, int v) { d_hi[i] = v; }
   void setLower(int i, int v) { d_lo[i] = v; }
   int numberCells(int i) const { return d_hi[i] - d_lo[i] + 1; }
   IntVector numberCells() const
   {
      IntVector v(tbox::Dimension(), 0);
      for (int i = 0; i < NDIM; i++)
         v[i] = numberCells(i);
      return v;
   }
   bool empty() const
   {
      for (int i = 0; i < NDIM; i++)
         if (numberCells(i) <= 0) return true;
      return false;
   }
   size_t size() const
   {
      size_t n = 1;
      for (int i = 0; i < NDIM; i++)
         n *= numberCells(i) > 0 ? numberCells(i) : 0;
      return n;
   }
   void grow(const IntVector& g)
   {
      for (int i = 0; i < NDIM; i++) {
         d_lo[i] -= g[i];
         d_hi[i] += g[i];
      }
   }
   void growUpper(int i, int n) { d_hi[i] += n; }
   static Box grow(const Box& b, const IntVector& g)
   {
      Box r(b);
      r.grow(g);
      return r;
   }
   bool contains(const Index& x) const
   {
      for (int i = 0; i < NDIM; i++)
         if (x[i] < d_lo[i] || x[i] > d_hi[i]) return false;
      return true;
   }
   Box operator*(const Box& o) const
   {
      Box r(*this);
      for (int i = 0; i < NDIM; i++) {
         if (o.d_lo[i] > r.d_lo[i]) r.d_lo[i] = o.d_lo[i];
         if (o.d_hi[i] < r.d_hi[i]) r.d_hi[i] = o.d_hi[i];
      }
      return r;
   }
   static Box coarsen(const Box& b, const IntVector& r)
   {
      Box c(b);
      for (int i = 0; i < NDIM; i++) {
         c.d_lo[i] = (int)std::floor((double)b.d_lo[i] / r[i]);
         c.d_hi[i] = (int)std::floor((double)b.d_hi[i] / r[i]);
      }
      return c;
   }
   bool operator==(const Box& o) const { return d_lo == o.d_lo && d_hi == o.d_hi; }
   bool operator!=(const Box& o) const { return !(*this == o); }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }

 private:
   Index d_lo, d_hi;
};
class PatchData
{
 public:
   PatchData(const Box& b, int ng) : d_box(b), d_gbox(b), d_ng(tbox::Dimension(), ng) { d_gbox.grow(d_ng); }
   virtual ~PatchData() {}
   const Box& getBox() const { return d_box; }
   const Box& getGhostBox() const { return d_gbox; }
   const IntVector& getGhostCellWidth() const { return d_ng; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   double getTime() const { return 0.; }

 protected:
   Box d_box, d_gbox;
   IntVector d_ng;
};
class PatchGeometry
{
 public:
   virtual ~PatchGeometry() {}
   bool d_touch[3][2] = {};
   bool getTouchesRegularBoundary(int axis, int side) const { return d_touch[axis][side]; }
   bool intersectsPhysicalBoundary() const
   {
      for (int i = 0; i < NDIM; i++)
         if (d_touch[i][0] || d_touch[i][1]) return true;
      return false;
   }
};
class Patch
{
 public:
   explicit Patch(const Box& b) : d_box(b) {}
   const Box& getBox() const { return d_box; }
   std::shared_ptr<PatchData> getPatchData(int id) const
   {
      auto p = d_data.find(id);
      return p == d_data.end() ? std::shared_ptr<PatchData>() : p->second;
   }
   std::shared_ptr<PatchGeometry> getPatchGeometry() const { return d_geom; }
   bool checkAllocated(int id) const { return d_data.count(id) > 0; }
   bool inHierarchy() const { return true; }
   int getPatchLevelNumber() const { return d_ln; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   Box d_box;
   int d_ln = 0;
   std::map<int, std::shared_ptr<PatchData> > d_data;
   std::shared_ptr<PatchGeometry> d_geom;
};
class PatchLevel
{
 public:
   typedef std::vector<std::shared_ptr<Patch> >::iterator Iterator;
   typedef std::vector<std::shared_ptr<Patch> >::iterator iterator;
   Iterator begin() { return d_patches.begin(); }
   Iterator end() { return d_patches.end(); }
   int getLevelNumber() const { return d_ln; }
   std::vector<std::shared_ptr<Patch> > d_patches;
   int d_ln = 0;
};
class BaseGridGeometry
{
 public:
   virtual ~BaseGridGeometry() {}
};
class PatchHierarchy
{
 public:
   int getNumberOfLevels() const { return d_levels.size(); }
   int getFinestLevelNumber() const { return (int)d_levels.size() - 1; }
   std::shared_ptr<PatchLevel> getPatchLevel(int ln) const { return d_levels.at(ln); }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return d_geom; }
   tbox::Dimension getDim() const { return tbox::Dimension(NDIM); }
   std::vector<std::shared_ptr<PatchLevel> > d_levels;
   std::shared_ptr<BaseGridGeometry> d_geom;
};
class Variable
{
 public:
   virtual ~Variable() {}
};
class VariableContext
{
};
class VariableDatabase
{
 public:
   static VariableDatabase* getDatabase()
   {
      static VariableDatabase d;
      return &d;
   }
   bool mapIndexToVariable(int, std::shared_ptr<Variable>&) { return true; }
};
class CoarsenOperator
{
 public:
   explicit CoarsenOperator(const std::string& n = "") : d_name(n) {}
   virtual ~CoarsenOperator() {}
   std::string d_name;
};
class RefineOperator
{
 public:
   explicit RefineOperator(const std::string& n = "") : d_name(n) {}
   virtual ~RefineOperator() {}
   std::string d_name;
};
class BoxContainer
{
 public:
   typedef std::vector<Box>::const_iterator const_iterator;
   const_iterator begin() const { return d_b.begin(); }
   const_iterator end() const { return d_b.end(); }
   std::vector<Box> d_b;
};
class BoxOverlap
{
 public:
   virtual ~BoxOverlap() {}
};
class BoundaryBox
{
 public:
   Box d_box;
   int d_loc = 0;
   const Box& getBox() const { return d_box; }
   int getLocationIndex() const { return d_loc; }
};
class ComponentSelector
{
};
}
namespace pdat
{
class CellIndex : public hier::Index
{
 public:
   CellIndex(const hier::Index& i) : hier::Index(i) {}
};
class SideIndex : public hier::Index
{
 public:
   enum { Lower = 0, Upper = 1 };
   SideIndex(const hier::Index& i, int axis, int side) : hier::Index(i), d_axis(axis) { (*this)[axis] += side; }
   int getAxis() const { return d_axis; }

 private:
   int d_axis;
};
class CellIterator
{
 public:
   CellIterator(const hier::Box& b, bool begin) : d_box(b), d_i(b.lower())
   {
      if (!begin || b.empty()) d_i[NDIM - 1] = b.upper()[NDIM - 1] + 1;
      if (!begin)
         for (int k = 0; k < NDIM - 1; k++)
            d_i[k] = b.lower()[k];
   }
   CellIterator& operator++()
   {
      for (int k = 0; k < NDIM; k++) {
         d_i[k]++;
         if (k == NDIM - 1 || d_i[k] <= d_box.upper()[k]) break;
         d_i[k] = d_box.lower()[k];
      }
      return *this;
   }
   CellIterator operator++(int)
   {
      CellIterator t(*this);
      ++*this;
      return t;
   }
   const CellIndex& operator*() const { return d_i; }
   const CellIndex* operator->() const { return &d_i; }
   bool operator==(const CellIterator& o) const { return d_i == o.d_i; }
   bool operator!=(const CellIterator& o) const { return d_i != o.d_i; }

 private:
   hier::Box d_box;
   CellIndex d_i;
};
class CellGeometry
{
 public:
   static CellIterator begin(const hier::Box& b) { return CellIterator(b, true); }
   static CellIterator end(const hier::Box& b) { return CellIterator(b, false); }
};
template <class T>
size_t mini_offset(const hier::Box& g, int side, const hier::Index& i, int depth)
{
   size_t o = 0, w = 1;
   for (int k = 0; k < NDIM; k++) {
      const int n = g.numberCells(k) + (k == side ? 1 : 0);
      assert(i[k] >= g.lower()[k] && i[k] < g.lower()[k] + n);
      o += w * (i[k] - g.lower()[k]);
      w *= n;
   }
   return o + w * depth;
}
template <class T>
class ArrayData
{
 public:
   ArrayData(const hier::Box& b, int depth, T* p) : d_box(b), d_depth(depth), d_p(p) {}
   const hier::Box& getBox() const { return d_box; }
   size_t getOffset() const { return d_box.size(); }
   T* getPointer(int d = 0) { return d_p + d * d_box.size(); }
   const T* getPointer(int d = 0) const { return d_p + d * d_box.size(); }
   int getDepth() const { return d_depth; }
   T& at(const hier::Index& i, int d) { return d_p[mini_offset<T>(d_box, -1, i, d)]; }
   const T& at(const hier::Index& i, int d) const { return d_p[mini_offset<T>(d_box, -1, i, d)]; }

 private:
   hier::Box d_box;
   int d_depth;
   T* d_p;
};
template <class T, class OP>
class ArrayDataOperationUtilities
{
 public:
   static void doArrayDataOperationOnBox(ArrayData<T>& dst, const ArrayData<T>& src, const hier::Box& box,
                                         const hier::IntVector& shift, unsigned int dst_depth, unsigned int src_depth,
                                         unsigned int num_depth, const OP& op);
};
template <class T>
class CellData : public hier::PatchData
{
 public:
   CellData(const hier::Box& b, int depth, const hier::IntVector& ng, T* p = nullptr)
       : hier::PatchData(b, ng[0]), d_depth(depth), d_own(p ? 0 : d_gbox.size() * depth), d_p(p ? p : d_own.data()),
         d_arr(d_gbox, depth, d_p)
   {
   }
   T* getPointer(int d = 0) { return d_p + d * d_gbox.size(); }
   const T* getPointer(int d = 0) const { return d_p + d * d_gbox.size(); }
   int getDepth() const { return d_depth; }
   ArrayData<T>& getArrayData() { return d_arr; }
   const ArrayData<T>& getArrayData() const { return d_arr; }
   T& operator()(const CellIndex& i, int d = 0) { return d_p[mini_offset<T>(d_gbox, -1, i, d)]; }
   const T& operator()(const CellIndex& i, int d = 0) const { return d_p[mini_offset<T>(d_gbox, -1, i, d)]; }
   void fill(const T& v, int d = 0)
   {
      for (size_t i = 0; i < d_gbox.size(); i++)
         getPointer(d)[i] = v;
   }
   void fillAll(const T& v)
   {
      for (int d = 0; d < d_depth; d++)
         fill(v, d);
   }
   void copyDepth(int dd, const CellData<T>& s, int sd)
   {
      for (CellIterator i(CellGeometry::begin(d_gbox)), e(CellGeometry::end(d_gbox)); i != e; ++i)
         if (s.d_gbox.contains(*i)) (*this)(*i, dd) = s(*i, sd);
   }
   void copy(const CellData<T>& s)
   {
      for (int d = 0; d < d_depth; d++)
         copyDepth(d, s, d);
   }

 private:
   int d_depth;
   std::vector<T> d_own;
   T* d_p;
   ArrayData<T> d_arr;
};
template <class T, class OP>
void ArrayDataOperationUtilities<T, OP>::doArrayDataOperationOnBox(ArrayData<T>& dst, const ArrayData<T>& src, const hier::Box& box,
                                                                   const hier::IntVector& shift, unsigned int dst_depth,
                                                                   unsigned int src_depth, unsigned int num_depth, const OP& op)
{
   for (unsigned int d = 0; d < num_depth; d++)
      for (CellIterator i(CellGeometry::begin(box)), e(CellGeometry::end(box)); i != e; ++i) {
         hier::Index s(*i);
         for (int k = 0; k < NDIM; k++)
            s[k] -= shift[k];
         op(dst.at(*i, dst_depth + d), src.at(s, src_depth + d));
      }
}
template <class T>
class SideData : public hier::PatchData
{
 public:
   SideData(const hier::Box& b, int depth, const hier::IntVector& ng, T** p) : hier::PatchData(b, ng[0]), d_depth(depth)
   {
      for (int k = 0; k < NDIM; k++) {
         d_n[k] = 1;
         for (int m = 0; m < NDIM; m++)
            d_n[k] *= d_gbox.numberCells(m) + (m == k ? 1 : 0);
         d_p[k] = p[k];
         hier::Index u(d_gbox.upper());
         u[k]++;
         d_arr.push_back(ArrayData<T>(hier::Box(d_gbox.lower(), u), depth, p[k]));
      }
   }
   ArrayData<T>& getArrayData(int k) { return d_arr[k]; }
   const ArrayData<T>& getArrayData(int k) const { return d_arr[k]; }
   void fill(const T& v, const hier::Box& b, int d = 0)
   {
      for (int k = 0; k < NDIM; k++) {
         hier::Index u(b.upper());
         u[k]++;
         for (CellIterator i(CellGeometry::begin(hier::Box(b.lower(), u))), e(CellGeometry::end(hier::Box(b.lower(), u))); i != e; ++i)
            d_arr[k].at(*i, d) = v;
      }
   }
   void fillAll(const T& v, const hier::Box& b)
   {
      for (int d = 0; d < d_depth; d++)
         fill(v, b, d);
   }
   T* getPointer(int k, int d = 0) { return d_p[k] + d * d_n[k]; }
   const T* getPointer(int k, int d = 0) const { return d_p[k] + d * d_n[k]; }
   int getDepth() const { return d_depth; }
   hier::IntVector getDirectionVector() const { return hier::IntVector(tbox::Dimension(), 1); }
   T& operator()(const SideIndex& i, int d = 0) { return d_p[i.getAxis()][mini_offset<T>(d_gbox, i.getAxis(), i, d)]; }
   const T& operator()(const SideIndex& i, int d = 0) const
   {
      return d_p[i.getAxis()][mini_offset<T>(d_gbox, i.getAxis(), i, d)];
   }
   void fill(const T& v, int d = 0)
   {
      for (int k = 0; k < NDIM; k++)
         for (size_t i = 0; i < d_n[k]; i++)
            getPointer(k, d)[i] = v;
   }
   void fillAll(const T& v)
   {
      for (int d = 0; d < d_depth; d++)
         fill(v, d);
   }
   void copyDepth(int dd, const SideData<T>& s, int sd)
   {
      for (int k = 0; k < NDIM; k++) {
         hier::Box b(d_gbox), sb(s.d_gbox);
         b.growUpper(k, 1);
         sb.growUpper(k, 1);
         for (CellIterator i(CellGeometry::begin(b)), e(CellGeometry::end(b)); i != e; ++i)
            if (sb.contains(*i)) (*this)(SideIndex(*i, k, 0), dd) = s(SideIndex(*i, k, 0), sd);
      }
   }

 private:
   int d_depth;
   size_t d_n[NDIM];
   T* d_p[NDIM];
   std::vector<ArrayData<T> > d_arr;
};
template <class T>
class CellVariable : public hier::Variable
{
};
template <class T>
class SideVariable : public hier::Variable
{
};
template <class T>
class NodeData : public hier::PatchData
{
};
class CellOverlap : public hier::BoxOverlap
{
 public:
   hier::BoxContainer d_c;
   const hier::BoxContainer& getDestinationBoxContainer() const { return d_c; }
};
}
namespace geom
{
class CartesianPatchGeometry : public hier::PatchGeometry
{
 public:
   double d_dx[NDIM], d_xlo[NDIM], d_xup[NDIM];
   const double* getDx() const { return d_dx; }
   const double* getXLower() const { return d_xlo; }
   const double* getXUpper() const { return d_xup; }
   std::vector<hier::BoundaryBox> d_bb;
   const std::vector<hier::BoundaryBox>& getCodimensionBoundaries(int) const { return d_bb; }
};
class CartesianGridGeometry : public hier::BaseGridGeometry
{
 public:
   double d_dx[NDIM], d_xlo[NDIM], d_xup[NDIM];
   const double* getDx() const { return d_dx; }
   const double* getXLower() const { return d_xlo; }
   const double* getXUpper() const { return d_xup; }
   std::shared_ptr<hier::CoarsenOperator> lookupCoarsenOperator(std::shared_ptr<hier::Variable>, const std::string&)
   {
      return std::shared_ptr<hier::CoarsenOperator>();
   }
   hier::IntVector getPeriodicShift(const hier::IntVector& r) const { return r; }
};
}
namespace math
{
template <class T>
class PatchCellDataOpsReal
{
   typedef std::shared_ptr<pdat::CellData<T> > D;

 public:
   template <class F>
   void each(const D& c, const hier::Box& b, F f)
   {
      for (int d = 0; d < c->getDepth(); d++)
         for (pdat::CellIterator i(pdat::CellGeometry::begin(b)), e(pdat::CellGeometry::end(b)); i != e; ++i)
            if (c->getGhostBox().contains(*i)) f((*c)(*i, d), *i, d);
   }
   void setToScalar(const D& x, const T& v, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex&, int) { a = v; });
   }
   void copyData(const D& x, const D& y, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = (*y)(i, d); });
   }
   void scale(const D& x, const T& s, const D& y, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = s * (*y)(i, d); });
   }
   void add(const D& x, const D& y, const D& z, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = (*y)(i, d) + (*z)(i, d); });
   }
   void subtract(const D& x, const D& y, const D& z, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = (*y)(i, d) - (*z)(i, d); });
   }
   void multiply(const D& x, const D& y, const D& z, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = (*y)(i, d) * (*z)(i, d); });
   }
   void addScalar(const D& x, const D& y, const T& s, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = (*y)(i, d) + s; });
   }
   void linearSum(const D& x, const T& s, const D& y, const T& t, const D& z, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = s * (*y)(i, d) + t * (*z)(i, d); });
   }
   void axpy(const D& x, const T& s, const D& y, const D& z, const hier::Box& b)
   {
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { a = s * (*y)(i, d) + (*z)(i, d); });
   }
   T integral(const D& x, const hier::Box& b, const D& w)
   {
      T s = 0;
      each(x, b, [&](T& a, const pdat::CellIndex& i, int d) { s += a * (*w)(i, 0); });
      return s;
   }
   double L2Norm(const std::shared_ptr<pdat::CellData<T> >&, const hier::Box&) { return 0.; }
};
template <class T>
class PatchCellDataNormOpsReal : public PatchCellDataOpsReal<T>
{
};
template <class T>
class PatchSideDataNormOpsReal
{
 public:
   double L2Norm(const std::shared_ptr<pdat::SideData<T> >&, const hier::Box&) { return 0.; }
};
template <class T>
class PatchCellDataBasicOps
{
};
template <class T>
class HierarchyCellDataOpsReal
{
 public:
   explicit HierarchyCellDataOpsReal(const std::shared_ptr<hier::PatchHierarchy>& h, int = -1, int = -1) : d_h(h) {}
   template <class F>
   void each(int id, bool interior, F f)
   {
      for (auto& l : d_h->d_levels)
         for (auto& p : l->d_patches) {
            auto c = std::dynamic_pointer_cast<pdat::CellData<T> >(p->getPatchData(id));
            const hier::Box& b = interior ? p->getBox() : c->getGhostBox();
            for (int d = 0; d < c->getDepth(); d++)
               for (pdat::CellIterator i(pdat::CellGeometry::begin(b)), e(pdat::CellGeometry::end(b)); i != e; ++i)
                  f(*p, (*c)(*i, d), *i, d);
         }
   }
   T at(hier::Patch& p, int id, const pdat::CellIndex& i, int d)
   {
      return (*std::dynamic_pointer_cast<pdat::CellData<T> >(p.getPatchData(id)))(i, d);
   }
   void setToScalar(int id, const T& v, bool interior = true)
   {
      each(id, interior, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { x = v; });
   }
   void copyData(int dst, int src, bool interior = true)
   {
      each(dst, interior, [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = at(p, src, i, d); });
   }
   void scale(int dst, const T& a, int src, bool interior = true)
   {
      each(dst, interior, [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = a * at(p, src, i, d); });
   }
   void addScalar(int dst, int src, const T& a, bool interior = true)
   {
      each(dst, interior, [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = at(p, src, i, d) + a; });
   }
   void add(int dst, int s1, int s2, bool interior = true)
   {
      each(dst, interior,
           [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = at(p, s1, i, d) + at(p, s2, i, d); });
   }
   void subtract(int dst, int s1, int s2, bool interior = true)
   {
      each(dst, interior,
           [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = at(p, s1, i, d) - at(p, s2, i, d); });
   }
   void multiply(int dst, int s1, int s2, bool interior = true)
   {
      each(dst, interior,
           [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = at(p, s1, i, d) * at(p, s2, i, d); });
   }
   void axpy(int dst, const T& a, int s1, int s2, bool interior = true)
   {
      each(dst, interior,
           [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = a * at(p, s1, i, d) + at(p, s2, i, d); });
   }
   void linearSum(int dst, const T& a, int s1, const T& b, int s2, bool interior = true)
   {
      each(dst, interior,
           [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int d) { x = a * at(p, s1, i, d) + b * at(p, s2, i, d); });
   }
   T integral(int id, int wid)
   {
      T m = 0;
      each(id, true, [&](hier::Patch& p, T& x, const pdat::CellIndex& i, int) { m += x * at(p, wid, i, 0); });
      return m;
   }
   T sumControlVolumes(int id, int wid)
   {
      T m = 0;
      each(id, true, [&](hier::Patch& p, T&, const pdat::CellIndex& i, int d) {
         if (d == 0) m += at(p, wid, i, 0);
      });
      return m;
   }
   double max(int id)
   {
      T m = -std::numeric_limits<T>::max();
      each(id, true, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { m = x > m ? x : m; });
      return m;
   }
   double min(int id)
   {
      T m = std::numeric_limits<T>::max();
      each(id, true, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { m = x < m ? x : m; });
      return m;
   }
   double L1Norm(int id, int = -1)
   {
      T m = 0;
      each(id, true, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { m += std::fabs(x); });
      return m;
   }
   double L2Norm(int id, int = -1)
   {
      T m = 0;
      each(id, true, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { m += x * x; });
      return std::sqrt(m);
   }
   double maxNorm(int id, int = -1)
   {
      T m = 0;
      each(id, true, [&](hier::Patch&, T& x, const pdat::CellIndex&, int) { m = std::fabs(x) > m ? std::fabs(x) : m; });
      return m;
   }

 private:
   std::shared_ptr<hier::PatchHierarchy> d_h;
};
template <class T>
class HierarchySideDataOpsReal
{
 public:
   explicit HierarchySideDataOpsReal(const std::shared_ptr<hier::PatchHierarchy>&, int = -1, int = -1) {}
};
}
namespace xfer
{
class RefinePatchStrategy
{
 public:
   virtual ~RefinePatchStrategy() {}
};
class CoarsenSchedule
{
 public:
   void coarsenData() {}
};
class CoarsenAlgorithm
{
 public:
   explicit CoarsenAlgorithm(const tbox::Dimension&) {}
   void registerCoarsen(int, int, std::shared_ptr<hier::CoarsenOperator>) {}
   std::shared_ptr<CoarsenSchedule> createSchedule(std::shared_ptr<hier::PatchLevel>, std::shared_ptr<hier::PatchLevel>)
   {
      return std::make_shared<CoarsenSchedule>();
   }
};
class RefineSchedule
{
};
}
namespace solv
{
class RobinBcCoefStrategy
{
};
class LocationIndexRobinBcCoefs
{
};
class CartesianRobinBcHelper
{
};
}
}
#endif
