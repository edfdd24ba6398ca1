// Instantiates the templates of the headers that the repository builds, with the
// types the rest of the repository uses (and small probe types), so that the
// analyser sees them resolved.  Not compiled into anything that runs.
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <vector>
#include <string>
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/output_msgs.h>
#include <ndt_gslam/ndt/voxel_grid2d.h>
#include <ndt_gslam/registration/ndt_reg_tools.h>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
#include <ndt_gslam/utils/eigen_tools.h>
#include <ndt_gslam/utils/string_tools.h>

namespace vp_probe {
struct Obj { int v; Obj(std::nullptr_t) {} Obj(const Obj&) = default; Obj& operator=(const Obj&) = default; };
void touch() {
  slamuk::VoxelGrid2D<slamuk::NDTCell> grid;
  slamuk::Graph<Slam2d_Policy, Obj> graph;
  slamuk::Edge<Slam2d_Policy, Obj> edge;
  slamuk::Node<Slam2d_Policy, Obj> node;
  graph.beginEdge(); graph.cbeginEdge(); graph.beginNode(); graph.cbeginNode();
  slamuk::ListIterator<slamuk::Edge<Slam2d_Policy, Obj>> it1;
  slamuk::ConstListIterator<slamuk::Edge<Slam2d_Policy, Obj>> it2;
  slamuk::ListIterator<slamuk::Node<Slam2d_Policy, Obj>> it3;
  slamuk::ConstListIterator<slamuk::Node<Slam2d_Policy, Obj>> it4;

  Eigen::Matrix3d c1, c2, c3;
  slamuk::covarInverse<double>(c1, c2, c3);
  typedef double T;
  eigt::pose2d_t<T> a, b;
  eigt::transform2d_t<T> t;
  eigt::transBtwPoses<T>(a, b);
  eigt::transformPose<T>(a, t);
  eigt::transformConcat<T>(a, t);
  eigt::transBtwFrames<T>(a, b);
  eigt::getPoseFromTransform<T>(t);
  eigt::getAngle<T>(t);
  eigt::getDisplacement<T>(t);
  eigt::getAngleDiffrence<T>(a, b);
  Eigen::Matrix4d m4;
  Eigen::Matrix3d m3;
  eigt::convertToTransform<T>(m4);
  eigt::convertFromTransform<T>(t);
  eigt::getTransFromPose<T>(a);
  eigt::normalizeAngle<T>(0.0);
  eigt::vecToMat3d<T, T>(a);
  eigt::vecToMat2d<T, T>(a);
  eigt::matToVec2d<T, T>(m3);
  eigt::matToVec2d<T, T>(m4);
  pcl::ndt_reg::ScoreAndDerivatives<3, double> s;
  s + s;
  pcl::ndt_reg::vecToMat<double>(a);
  pcl::ndt_reg::vecToMat<float>(a);
  pcl::ndt_reg::matToVec<double>(m4);
}
}
