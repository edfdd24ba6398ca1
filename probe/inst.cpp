// Explicit instantiation of every member of the class templates and use of every function
// template, whether or not the package uses them.  Only parsed, never run.
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/voxel_grid2d.h>
#include <ndt_gslam/registration/ndt_reg_tools.h>
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
#include <ndt_gslam/utils/eigen_tools.h>

namespace vp_probe {
struct Obj { int v; Obj(std::nullptr_t) : v(0) {} Obj(const Obj&) = default; Obj& operator=(const Obj&) = default; };
}
template class slamuk::VoxelGrid2D<slamuk::NDTCell>;
template class slamuk::Graph<Slam2d_Policy, vp_probe::Obj>;
template class slamuk::Node<Slam2d_Policy, vp_probe::Obj>;
template class slamuk::Edge<Slam2d_Policy, vp_probe::Obj>;
template class slamuk::ListIterator<slamuk::Edge<Slam2d_Policy, vp_probe::Obj>>;
template class slamuk::ConstListIterator<slamuk::Edge<Slam2d_Policy, vp_probe::Obj>>;
template class slamuk::ListIterator<slamuk::Node<Slam2d_Policy, vp_probe::Obj>>;
template class slamuk::ConstListIterator<slamuk::Node<Slam2d_Policy, vp_probe::Obj>>;
template struct pcl::ndt_reg::ScoreAndDerivatives<3, double>;
template struct pcl::ndt_reg::ScoreAndDerivatives<3, float>;
template struct pcl::ndt_reg::ScoreAndDerivatives<6, double>;
template struct pcl::ndt_reg::ScoreAndDerivatives<6, float>;

namespace vp_probe {
template <typename T>
void scalar()
{
  Eigen::Matrix<T, 3, 3> c1, c2, c3;
  slamuk::covarInverse<T>(c1, c2, c3);
  eigt::pose2d_t<T> a, b;
  eigt::transform2d_t<T> t;
  eigt::transBtwPoses<T>(a, b);
  eigt::transformPose<T>(a, t);
  eigt::transformConcat<T>(a, t);
  eigt::transBtwFrames<T>(a, b);
  eigt::getPoseFromTransform<T>(t);
  eigt::getAngle<T>(t);
  eigt::getDisplacement<T>(t);
  eigt::getAngleDiffrence<T>(a, b);
  Eigen::Matrix<T, 4, 4> m4;
  Eigen::Matrix<T, 3, 3> m3;
  eigt::convertToTransform<T>(m4);
  eigt::convertFromTransform<T>(t);
  eigt::getTransFromPose<T>(a);
  eigt::normalizeAngle<T>(T(0));
  eigt::vecToMat3d<T, T>(a);
  eigt::vecToMat2d<T, T>(a);
  eigt::vecToMat3d<T, float>(a);
  eigt::vecToMat2d<T, double>(a);
  eigt::vecToMat3d<T, double>(a);
  eigt::vecToMat2d<T, float>(a);
  eigt::matToVec2d<T, T>(m3);
  eigt::matToVec2d<T, T>(m4);
  eigt::matToVec2d<T, float>(m3);
  eigt::matToVec2d<T, double>(m4);
  pcl::ndt_reg::ScoreAndDerivatives<3, T> s;
  s + s;
  Eigen::Vector3d p;
  pcl::ndt_reg::vecToMat<T>(p);
  pcl::ndt_reg::matToVec<T>(m4);
}
void all(std::ostream& os, const slamuk::VoxelGrid2D<slamuk::NDTCell>& grid)
{
  scalar<float>();
  scalar<double>();
  os << grid;
}
}
