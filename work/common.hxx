/* Shared parts of the workloads: random coarse meshes, random forest histories,
 * snapshots of the distributed state and the sequential reference model. */
#ifndef VERIF_COMMON_HXX
#define VERIF_COMMON_HXX
#include "runner.hxx"
#include "sim.hxx"
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <t8.h>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_forest/t8_forest.h>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>
#include <t8_schemes/t8_scheme.hxx>

using sim::chance;
using sim::choose;
using sim::fail;
using sim::range;

/* A leaf of the mesh, independent of any process. */
struct Leaf
{
  t8_gloidx_t tree = 0;
  int cls = 0, level = 0;
  t8_linearidx_t id = 0;        /* index among the elements of its level */
  t8_linearidx_t first = 0;     /* index of its first descendant on maxlevel */
  bool operator== (const Leaf &o) const { return tree == o.tree && cls == o.cls && level == o.level && id == o.id; }
  bool operator!= (const Leaf &o) const { return !(*this == o); }
  bool operator< (const Leaf &o) const
  {
    if (tree != o.tree) return tree < o.tree;
    if (first != o.first) return first < o.first;
    return level < o.level;
  }
  std::string str () const;
};
uint64_t hash_leaves (const std::vector<Leaf> &v);

/* ------------------------------------------------------------- meshes */
struct MeshSpec
{
  int kind = 0;
  int cls = T8_ECLASS_QUAD;
  int a = 1, b = 1, c = 1, per = 0;
  int scheme = 0;                /* 0 default, 1 standalone */
  int bcast = 0;
  int part = 0;                  /* 0 replicated, 1 partitioned */
  int part_level = 0;
  uint32_t rnd = 0;              /* for the random gluing */
  std::string str () const;
  bool radius (double &lo, double &hi) const;   /* of the points of a round mesh, or false */
  int dim () const;
};
enum { MESH_ANY = 0, MESH_PART_OK = 1, MESH_SMALL = 2, MESH_GEOM = 4, MESH_NO_VERTEX = 8, MESH_NO_RANDOM = 16 };
MeshSpec draw_mesh (int flags);
const t8_scheme *new_scheme (const MeshSpec &m);
/* collective over comm; the result is committed */
t8_cmesh_t build_cmesh (const MeshSpec &m, sc_MPI_Comm comm, bool force_replicated = false);

/* ------------------------------------------------------------- elements */
struct Elem   /* owning element */
{
  const t8_scheme *s;
  t8_eclass_t c;
  t8_element_t *e;
  Elem (const t8_scheme *s_, t8_eclass_t c_): s (s_), c (c_) { s->element_new (c, 1, &e); }
  ~Elem () { s->element_destroy (c, 1, &e); }
  Elem (const Elem &) = delete;
};
void check_face_walk (t8_forest_t f, uint64_t salt, int times);
Leaf make_leaf (const t8_scheme *s, t8_eclass_t c, t8_gloidx_t tree, const t8_element_t *e);
void set_elem (const t8_scheme *s, const Leaf &l, t8_element_t *e);

/* ------------------------------------------------------------- snapshots */
struct Snap
{
  bool have = false;
  std::vector<Leaf> leaves;
  t8_gloidx_t global = 0, first = 0;
  t8_gloidx_t first_tree = 0;
  int ntrees = 0;
  std::vector<t8_gloidx_t> tree_ids;
};
Snap snap_forest (t8_forest_t f);
/* the ghost layer of one rank */
struct GhostSnap
{
  bool have = false;
  std::vector<Leaf> leaves;               /* in the order of the ghost indices */
  std::vector<t8_gloidx_t> trees;         /* global ids of the ghost trees */
  std::vector<int> remotes, first_tree, first_elem;
};
GhostSnap snap_ghost (t8_forest_t f);
/* history of one operation: one snapshot per rank */
struct Step
{
  std::string what;
  std::vector<Snap> r;
  std::vector<Leaf> global () const { std::vector<Leaf> v; for (auto &s : r) v.insert (v.end (), s.leaves.begin (), s.leaves.end ()); return v; }
};
/* fails unless the snapshots describe one mesh: counts, order, no overlap */
void check_consistent (const Step &s, const char *cls);
/* first difference of two leaf sequences, or "" */
std::string diff_leaves (const std::vector<Leaf> &a, const std::vector<Leaf> &b);

/* ------------------------------------------------------------- operations */
enum OpKind { OP_REFINE, OP_COARSEN, OP_PARTITION, OP_PFC, OP_BALANCE, OP_WEIGHT, OP_OFFSETS, OP_COMBINED, OP_COPY, OP_GHOST, OP_REMOVE, OP_REFINE_REC, OP_BALANCE_NOREP, OP_MIXED, OP_COARSEN_REC, OP_MIXED_REC };
struct Op
{
  int kind = OP_REFINE;
  uint32_t seed = 0;
  int mode = 0;          /* pattern of refinement / weights */
  int pm = 500;          /* density per mille */
  int maxlevel = 3;
  int minlevel = 0;
  int flag = 0;
  int ghost = 0;         /* 0 none, otherwise the algorithm (3 is the default) */
  int pfc_base = 0;      /* OP_PFC on top of: 0 equal, 1 weighted, 2 prescribed offsets */
  bool fam = false;      /* OP_COMBINED: partition for coarsening */
  bool part = false;     /* an adaptation that also partitions, in the same commit */
  bool prof = false;     /* with profiling switched on */
  std::vector<int> cuts; /* per mille, for OP_OFFSETS */
  std::string str () const;
};
const char *op_name (int k);
struct AdaptArg { const Op *op; long cap; const t8_scheme *s; };
int op_decide (const Op &op, t8_gloidx_t tree, int cls, int level, t8_linearidx_t id, bool is_family);
int adapt_cb (t8_forest_t forest, t8_forest_t forest_from, t8_locidx_t which_tree, const t8_eclass_t tree_class,
              t8_locidx_t lelement_id, const t8_scheme *scheme, const int is_family, const int num_elements, t8_element_t *elements[]);
double weight_cb (t8_forest_t f, t8_locidx_t ltree, t8_locidx_t el);
Op draw_op (int kind, const MeshSpec &m);
int level_cap (const MeshSpec &m);
/* after a removal only adapt and plain partitions are supported */
void limit_removed (std::vector<Op> &ops);
/* applies op, consumes f, returns the new forest (collective) */
t8_forest_t apply_op (t8_forest_t f, const Op &op, std::vector<t8_gloidx_t> *offsets_used = nullptr);
/* prescribed first element of each rank for OP_OFFSETS */
std::vector<t8_gloidx_t> cut_offsets (const Op &op, t8_gloidx_t n, int P);
double weight_of (const Op &op, const Leaf &l);

/* ------------------------------------------------------------- world setup */
struct World   /* how the job's ranks are arranged */
{
  int P = 1;             /* ranks of the job */
  int mode = 0;          /* 0 dup, 1 reversed order, 2 only a subset takes part, 3 two groups work concurrently */
  int sub = 1;           /* size of the first group in modes 2 and 3 */
  std::string str () const;
  int size (int group) const { return mode < 2 ? P : group == 0 ? sub : P - sub; }
};
World draw_world (int maxP, bool groups = true);
/* Runs fn(comm, group) on every rank that takes part. */
bool run_world (const World &w, const std::function<void (sc_MPI_Comm comm, int group)> &fn, bool perturb = true);

/* ------------------------------------------------------------- histories */
/* A coarse mesh, a uniform forest and a sequence of operations on it. */
struct Hist
{
  World w;
  MeshSpec m;
  int level = 0;
  std::vector<Op> ops;
  void describe () const;
  int groups () const { return w.mode == 3 ? 2 : 1; }
};
/* rank of each leaf of the global sequence */
std::vector<int> owner_of (const Step &s);
Hist draw_hist (int mesh_flags, int maxP, const std::vector<int> &kinds, int minops, int maxops);
struct HistCtx
{
  int group, rank, size;
  sc_MPI_Comm comm;
  int step;              /* 0: the uniform forest */
  const Op *op;          /* of this step, or null */
  t8_forest_t old, f;    /* before (or null) and after this step */
};
/* runs the history on all ranks; fn sees every forest */
void run_hist (const Hist &h, const std::function<void (HistCtx &)> &fn, bool last_only = false);
/* records the leaves after every step: [group][step] */
struct Record
{
  std::vector<Step> g[2];
  explicit Record (const Hist &h);
  void add (const HistCtx &c) { g[c.group][c.step].r[c.rank] = snap_forest (c.f); }
};
/* the same history on one process, without the simulator */
std::vector<std::vector<Leaf>> run_alone (const Hist &h);

/* ------------------------------------------------------------- model */
/* Sequential model of a mesh: knows the trees and how they are glued, answers
 * neighbour questions by brute force over the global list of leaves. */
struct Model
{
  t8_forest_t f = nullptr;       /* level 0 forest on one process, all trees */
  const t8_scheme *s = nullptr;
  std::vector<std::vector<Leaf>> trees;   /* leaves by tree, ascending */
  std::vector<t8_eclass_t> cls;
  explicit Model (const MeshSpec &m);
  ~Model ();
  void set (const std::vector<Leaf> &leaves);
  std::vector<Leaf> all () const;
  t8_linearidx_t last_desc (const Leaf &l) const;
  /* leaf that contains e (equal or coarser), or -1 */
  long covering (t8_gloidx_t tree, const t8_element_t *e) const;
  /* any leaf inside e or equal? */
  bool any_inside (t8_gloidx_t tree, const t8_element_t *e) const;
  struct Nb { Leaf leaf; int face; };
  /* leaves that share face 'face' of l; dual faces.  Decided by the positions of the face corners in the trees'
   * reference coordinates and the joins of the coarse mesh, not by the neighbour functions of the scheme. */
  std::vector<Nb> neighbors (const Leaf &l, int face, bool *boundary = nullptr) const;
  int num_faces (const Leaf &l) const;
  /* face of the tree that this face of l lies on, or -1, and the orientation of the join there (0 if none) */
  int tree_face (const Leaf &l, int face, int *orientation) const;
  /* the leaves inside the element e that touch its face (or the leaf that contains e), by position */
  std::vector<Leaf> at_face (const Leaf &e, int face) const;
  /* how far x (in reference coordinates of the tree) lies outside of l; negative: inside */
  double outside (const Leaf &l, const double *x) const;
  void children (const Leaf &l, std::vector<Leaf> &out) const;
  Leaf parent (const Leaf &l) const;
  /* least refinement that has no face neighbours more than one level apart */
  bool balance ();               /* true if anything changed */
  /* the leaf sequence after a non recursive adapt of 'in' (local order); a mesh with holes has families with missing
   * members, which are not coarsened where the process cannot see whether it has all that is left of them */
  std::vector<Leaf> adapt (const std::vector<Leaf> &in, const Op &op, long global, bool holes = false, int rank = 0, int size = 1) const;
  /* do the leaves cover their trees? */
  bool covers (const std::vector<Leaf> &leaves) const;
  bool inside (const Leaf &l, const Leaf &ancestor) const { return l.tree == ancestor.tree && l.level >= ancestor.level && l.first >= ancestor.first && l.first <= last_desc (ancestor); }
  /* the same for a recursive adapt */
  std::vector<Leaf> adapt_rec (const std::vector<Leaf> &in, const Op &op, long global) const;
  std::vector<Leaf> uniform (int level) const;
  void collect (t8_gloidx_t tree, t8_eclass_t c, const t8_element_t *n, int nface, std::vector<Nb> &out) const;
 private:
  struct RFace
  {
    Leaf leaf;
    int face, n, tface;            /* tface: face of the tree it lies on, or -1 */
    double x[4][3], cen[3], out[3], size;
  };
  struct Root { int nf = 0, n[6]; double x[6][4][3], cen[6][3], out[6][3]; };
  mutable bool built = false;      /* the faces are those of the leaves */
  mutable std::vector<std::map<std::array<long long, 5>, std::vector<RFace>>> faces;   /* by tree and plane */
  std::vector<Root> roots;         /* by tree */
  void rface (t8_gloidx_t tree, const Leaf &l, const t8_element_t *e, int face, RFace &o) const;
  void build () const;
  static std::array<long long, 5> plane (const RFace &f);
};
long leaf_cap ();
#endif
