/* Random coarse meshes as plain data, ways to build them, and the check that a
 * committed coarse mesh describes exactly that data. */
#ifndef VERIF_CMODEL_HXX
#define VERIF_CMODEL_HXX
#include "common.hxx"

struct CAttr
{
  int pkg = 0, key = 0;          /* pkg: 0 our first package, 1 our second */
  std::string bytes;
  int how = 0;                   /* 0 copied, 1 persistent memory, 2 string, 3 index array */
  bool twice = false;            /* set with another value before */
};
struct CFace { long nb = -1; int dual = 0, ori = 0; };
struct CTree
{
  int cls = 0;
  bool verts = false;
  int geom = 0;                  /* 0 linear, 1 zero */
  std::vector<double> v;
  std::vector<CAttr> at;
  std::vector<CFace> f;
};
struct CSpec
{
  int dim = 2;
  bool two_geom = false;         /* a geometry is set per tree */
  std::vector<CTree> t;
  long n () const { return (long) t.size (); }
  std::string str () const;
  void describe () const;
};
enum { CS_NO_GEOM = 1, CS_VERTS = 2, CS_NO_TWICE = 4, CS_NO_ATTR = 8, CS_ONE_GEOM = 16 };
CSpec draw_cspec (int flags, int maxtrees = 12);
/* first tree (and shared flag) of every rank */
struct CPart
{
  std::vector<long> first, num;
  std::vector<char> shared;
  std::vector<t8_gloidx_t> table () const;
  long N = 0;
  std::string str () const;
};
CPart draw_cpart (long ntrees, int P);
/* the partition described by a table */
CPart part_of_table (const std::vector<t8_gloidx_t> &tab);
/* order and selection of the calls that describe the mesh; local: only what this rank needs (its part), else everything */
void fill_cmesh (t8_cmesh_t c, const CSpec &s, uint64_t order_seed, const CPart *part, int rank, std::vector<std::string> &keep, bool reg = true);
/* fill_cmesh does this unless reg is false */
void register_geoms (t8_cmesh_t c, const CSpec &s, t8_geometry_c *g[2] = nullptr);
/* fails unless cmesh is the mesh of the spec, replicated (part null) or this rank's share of it */
struct CheckOpt { bool attrs = true, ghost_attrs = true, geom = true, verts = true; };
void check_cmesh (const char *where, t8_cmesh_t c, const CSpec &s, const CPart *part, int rank, int P, const CheckOpt &o = CheckOpt ());
/* reads a replicated mesh (classes, faces, vertices); first: number of its first tree in the result */
void spec_of (t8_cmesh_t c, CSpec &s, long first = 0);
uint64_t cspec_hash (const CSpec &s);
int cmodel_pkg (int i);
#endif
