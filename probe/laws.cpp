// Compositions of public operations of the package.  Nothing here is ever run: the analyser
// interprets these functions symbolically together with the operations they use, and the
// rules compare the normal forms the snapshots end up with.
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>

namespace vp_law {
struct Obj { int v; Obj(std::nullptr_t) {} Obj(const Obj&) = default; Obj& operator=(const Obj&) = default; };
typedef Slam2d_Policy P;
typedef slamuk::Graph<P, Obj> G;
typedef slamuk::Node<P, Obj> N;
typedef slamuk::Edge<P, Obj> E;

struct EdgeView {
  size_t id;
  int state, type;
  bool used;
  const N* from;
  const N* to;
  P::Pose transform;
  P::InformMatrix inform;
};
struct NodeView {
  size_t id;
  bool visited;
  P::Pose pose;
  Obj object;
  size_t in, out;
};
void see(const E& e, EdgeView& v)
{
  v.id = e.getId();
  v.state = static_cast<int>(e.getState());
  v.type = static_cast<int>(e.getType());
  v.used = e.isUsed();
  v.from = e.getFrom();
  v.to = e.getTo();
  v.transform = e.getTransform();
  v.inform = e.getInformationMatrix();
}
void see(N& n, NodeView& v)
{
  v.id = n.getId();
  v.visited = n.isVisited();
  v.pose = n.getPose();
  v.object = n.getDataObj();
  v.in = n.getEdgesIn().size();
  v.out = n.getEdgesOut().size();
}
// ---- edge attributes
void edge_setId(E& e, size_t x, EdgeView& a, EdgeView& b) { see(e, a); e.setId(x); see(e, b); }
void edge_setState(E& e, E::State x, EdgeView& a, EdgeView& b) { see(e, a); e.setState(x); see(e, b); }
void edge_setType(E& e, E::Type x, EdgeView& a, EdgeView& b) { see(e, a); e.setType(x); see(e, b); }
void edge_setUsed(E& e, bool x, EdgeView& a, EdgeView& b) { see(e, a); e.setUsed(x); see(e, b); }
void edge_look(E& e, EdgeView& a, EdgeView& b) { see(e, a); e.getError(); e.getJacobianBlocks(); e.getTransMatrix(); see(e, b); }
void edge_new(N* from, N* to, const P::Pose& t, const P::InformMatrix& m, EdgeView& b) { E e(from, to, t, m); see(e, b); }
void edge_default(size_t& id, int& state, int& type, bool& used, const N*& from, const N*& to)
{
  E e;
  id = e.getId();
  state = static_cast<int>(e.getState());
  type = static_cast<int>(e.getType());
  used = e.isUsed();
  from = e.getFrom();
  to = e.getTo();
}
void edge_copy(const E& e, EdgeView& a, EdgeView& b) { see(e, a); E c(e); see(c, b); }
void edge_add(G& g, E& e, EdgeView& a, EdgeView& b, size_t& id)
{
  see(e, a);
  id = g.addEdge(std::move(e));
  see(g.getEdge(id), b);
}
// ---- node attributes
void node_setId(N& n, size_t x, NodeView& a, NodeView& b) { see(n, a); n.setId(x); see(n, b); }
void node_setVisited(N& n, bool x, NodeView& a, NodeView& b) { see(n, a); n.setVisited(x); see(n, b); }
void node_setPose(N& n, const P::Pose& x, NodeView& a, NodeView& b) { see(n, a); n.setPose(x); see(n, b); }
void node_addToPose(N& n, const P::Pose& x, NodeView& a, NodeView& b) { see(n, a); n.addToPose(x); see(n, b); }
void node_addToPoseMove(N& n, P::Pose& x, NodeView& a, NodeView& b) { see(n, a); n.addToPose(std::move(x)); see(n, b); }
void node_addDataObj(N& n, Obj& x, NodeView& a, NodeView& b) { see(n, a); n.addDataObj(x); see(n, b); }
void node_print(N& n, std::ostream& x, NodeView& a, NodeView& b) { see(n, a); n.printNode(x); see(n, b); }
void node_new(const P::Pose& p, const Obj& o, NodeView& b) { N n(p, o); see(n, b); }
void node_default(size_t& id, bool& visited, size_t& in, size_t& out)
{
  N n;
  id = n.getId();
  visited = n.isVisited();
  in = n.getEdgesIn().size();
  out = n.getEdgesOut().size();
}
void node_copy(N& n, NodeView& a, NodeView& b) { see(n, a); N c(n); see(c, b); }
void node_add(G& g, N& n, NodeView& a, NodeView& b, size_t& id)
{
  see(n, a);
  id = g.addNode(std::move(n));
  see(g.getNode(id), b);
}
}
