// Matrix operations over the hypercomplex algebras on integer matrices.
#include "common.h"
#include "conex/jordan_matrix_algebra.h"
using namespace vh;
using conex::HyperComplexMatrix;

static std::string H(const HyperComplexMatrix& x, double s) {
  std::string t = "[";
  for (size_t i = 0; i < x.size(); i++) t += (i ? "," : "") + Json::Mat(x.at(i), s);
  return t + "]";
}

// op <dim> <r> <k> <k2> <c> <scalar> <orth> X(dim x r x k) Y(dim x k2 x c)
template <typename T>
void Op(Tok& t, int dim) {
  int r = t.i(), k = t.i(), k2 = t.i(), c = t.i(), s = t.i(), orth = t.i();
  HyperComplexMatrix X(dim), Y(dim);
  for (int i = 0; i < dim; i++) X.at(i) = t.mat(r, k);
  for (int i = 0; i < dim; i++) Y.at(i) = t.mat(k2, c);
  Json o;
  if (k == k2) o.raw("mul", H(T::Multiply(X, Y), 4));
  o.raw("ct", H(T::ConjugateTranspose(X), 4)).raw("scale", H(T::ScalarMultiply(X, s), 4));
  o.i("dim", T::HyperComplexDimension()).i("norm2", X.squaredNorm()).i("normnorm", X.norm() * X.norm());
  VectorXd v = r == k ? X.vect() : VectorXd();
  o.vec("vect", v).raw("zero", H(T::Zero(r, k), 1));
  if (r == k) {
    o.raw("mh", H(T::MakeHermitian(X), 4)).b("isherm", T::IsHermitian(X)).raw("id", H(T::Identity(r), 1));
  }
  if (r == k2 && k == c) {
    o.raw("add", H(T::Add(X, Y), 4)).i("ip", T::TraceInnerProduct(X, Y)).b("eq", T::IsEqual(X, Y));
    if (r == k) {
      o.raw("jordan", H(T::JordanMultiply(X, Y), 4)).raw("quad", H(T::QuadraticRepresentation(X, Y), 4));
    }
  }
  if (orth) o.raw("orth", H(T::Orthogonalize(X), 1000));
  Emit("op", Json().raw("out", "{" + o.s + "}"));
}

int main() {
  return RunCases([](const std::vector<std::string>& lines) {
    for (auto& l : lines) {
      Tok t(l);
      t.s();
      int dim = t.i();
      if (dim == 1) Op<conex::Real>(t, dim);
      if (dim == 2) Op<conex::Complex>(t, dim);
      if (dim == 4) Op<conex::Quaternions>(t, dim);
      if (dim == 8) Op<conex::Octonions>(t, dim);
    }
  });
}
