// Reparameterizations of Bezier functions need parts of Algoim that have no stand-in.
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <stdexcept>
namespace qugar::impl {
template<int dim, bool S> void reparam_Bezier(const BezierTP<dim, 1> &, const BoundBox<dim> &, ImplReparamMesh<S ? dim - 1 : dim, dim> &)
{
  throw std::runtime_error("no Bezier reparameterization");
}
template void reparam_Bezier<2, false>(const BezierTP<2, 1> &, const BoundBox<2> &, ImplReparamMesh<2, 2> &);
template void reparam_Bezier<2, true>(const BezierTP<2, 1> &, const BoundBox<2> &, ImplReparamMesh<1, 2> &);
template void reparam_Bezier<3, false>(const BezierTP<3, 1> &, const BoundBox<3> &, ImplReparamMesh<3, 3> &);
template void reparam_Bezier<3, true>(const BezierTP<3, 1> &, const BoundBox<3> &, ImplReparamMesh<2, 3> &);
}// namespace qugar::impl
