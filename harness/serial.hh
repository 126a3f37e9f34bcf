// Serialization of the functions of the specifications, and round trips through every kind of archive.
#ifndef V_SERIAL_HH
#define V_SERIAL_HH
#include <hpp/pinocchio/serialization.hh>
#include <hpp/util/serialization.hh>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <pinocchio/serialization/eigen.hpp>
#include <space.hh>
namespace V {
template <class Archive> void Poly::serialize(Archive& ar, const unsigned int) {
  ar& boost::serialization::make_nvp("base", boost::serialization::base_object<DifferentiableFunction>(*this));
  ar& BOOST_SERIALIZATION_NVP(ti); ar& BOOST_SERIALIZATION_NVP(to); ar& BOOST_SERIALIZATION_NVP(qo); ar& BOOST_SERIALIZATION_NVP(vo);
  ar& BOOST_SERIALIZATION_NVP(A); ar& BOOST_SERIALIZATION_NVP(b); ar& BOOST_SERIALIZATION_NVP(c);
  ar& BOOST_SERIALIZATION_NVP(unitless); ar& BOOST_SERIALIZATION_NVP(id); ar& BOOST_SERIALIZATION_NVP(degenerate);
}
template <class Archive> void TimeFn::serialize(Archive& ar, const unsigned int) {
  ar& boost::serialization::make_nvp("base", boost::serialization::base_object<DifferentiableFunction>(*this));
  std::vector<double> a; for (size_t i = 0; i < rf.size(); ++i) { a.push_back(rf[i][0].n); a.push_back(rf[i][1].n); }
  ar& BOOST_SERIALIZATION_NVP(to); ar& BOOST_SERIALIZATION_NVP(a);
  if (!Archive::is_saving::value) { rf = J::arr(); for (size_t i = 0; i + 1 < a.size(); i += 2) { J x = J::arr(); x.push(J(a[i])); x.push(J(a[i + 1])); rf.push(x); } }
}
template <typename O, typename I, typename T> void through(const T& from, T& to, DevicePtr_t d) {
  std::stringstream ss;
  { O oa(ss); if (d) oa.insert(d->name(), d.get()); oa << boost::serialization::make_nvp("x", from); }
  { I ia(ss); if (d) ia.insert(d->name(), d.get()); ia >> boost::serialization::make_nvp("x", to); }
}
// saved and restored in an archive of the given kind
template <typename T> void restore(const std::string& kind, const T& from, T& to, DevicePtr_t d = DevicePtr_t()) {
  namespace S = hpp::serialization;
  if (kind == "text") through<S::text_oarchive, S::text_iarchive>(from, to, d);
  else if (kind == "xml") through<S::xml_oarchive, S::xml_iarchive>(from, to, d);
  else through<S::binary_oarchive, S::binary_iarchive>(from, to, d);
}
}  // namespace V
BOOST_CLASS_EXPORT(V::Poly)
BOOST_CLASS_EXPORT(V::TimeFn)
#endif
