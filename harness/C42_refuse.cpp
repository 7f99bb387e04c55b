#include "env.hpp"
#include "begin.hpp"
#include "core.hpp"
#include "util.hpp"
#include "refuse.hpp"
using namespace openml;
#define AXIS(fn, call, ...) static void fn() { vf::encodes("axis handling of " #fn); Mat X = symMat("x", 2, 2); auto a = other("axis", {__VA_ARGS__}); refused([&] { call; }); }
AXIS(mean, math::mean<Mat>(X, a), 0, 1, -1) AXIS(sum, math::sum<Mat>(X, a), 0, 1, -1) AXIS(var, math::var<Mat>(X, a), 0, 1, -1)
static void median() { vf::encodes("axis handling of median"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1, -1}); refused([&] { math::median<Mat, Vec>(X, a); }); }
static void norm2() { vf::encodes("axis handling of norm2"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1}); refused([&] { math::norm2<Mat, Vec>(X, a); }); }
static void cumsum() { vf::encodes("axis handling of cumsum"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1, -1}); refused([&] { math::cumsum<Mat, Vec>(X, a); }); }
static void logsumexp() { vf::encodes("axis handling of logsumexp"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1, -1}); refused([&] { math::logsumexp<Mat, Vec>(X, a); }); }
AXIS(mode, math::mode<Mat>(X, a), 0, 1) AXIS(softmax, math::softmax<Mat>(X, a), 0, 1, -1)
AXIS(repeat, common::repeat<Mat>(X, 2, a), 0, 1) AXIS(sort, common::sort<Mat>(X, a), 0, 1) AXIS(sortr, common::sort<Mat>(X, a, true), 0, 1)
static void argmax() { vf::encodes("axis handling of argmax"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1, -1}); refused([&] { common::argmax<Mat, Vec, IdxVec>(X, a); }); }
static void argmin() { vf::encodes("axis handling of argmin"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1, -1}); refused([&] { common::argmin<Mat, Vec, IdxVec>(X, a); }); }
static void argsort(bool rev) { vf::encodes("axis handling of argsort"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1}); refused([&] { common::argsort<Mat, IdxMat, IdxVec>(X, a, rev); }); }
static void shuffle_axis() { vf::encodes("random::shuffle_data"); Mat X = symMat("x", 2, 2), Y; auto a = other("axis", {0, 1}); refused([&] { random::shuffle_data<Mat>(X, Y, a); }); }
static void norm_axis() { vf::encodes("common::norm"); Mat X = symMat("x", 2, 2); auto a = other("axis", {0, 1}, 0); int o = vf::choose("order", 3); refused([&] { common::norm<Mat>(X, a, o == 2 ? -1 : o + 1); }); }
static void norm_ord(int axis) { vf::encodes("common::norm"); Mat X = symMat("x", 2, 2); auto o = other("order", {1, 2, -1}); refused([&] { common::norm<Mat>(X, axis, o); }); }
static void minkowski() { vf::encodes("metric::minkowski_distance"); Vec a = symVec("a", 2), b = symVec("b", 2); auto o = other("order", {1, 2, -1}); refused([&] { metric::minkowski_distance<Vec>(a, b, o); }); }
VFQ("mean", mean(), "any other axis") VFQ("sum", sum(), "any other axis") VFQ("var", var(), "any other axis") VFQ("median", median(), "any other axis") VFQ("norm2", norm2(), "any other axis") VFQ("cumsum", cumsum(), "any other axis") VFQ("logsumexp", logsumexp(), "any other axis") VFQ("mode", mode(), "any other axis") VFQ("softmax", softmax(), "any other axis")
VFQ("repeat", repeat(), "any other axis") VFQ("sort", sort(), "any other axis") VFQ("sortr", sortr(), "any other axis, descending") VFQ("argmax", argmax(), "any other axis") VFQ("argmin", argmin(), "any other axis") VFQ("argsort", argsort(false), "any other axis") VFQ("argsortr", argsort(true), "any other axis, descending") VFQ("shuffle", shuffle_axis(), "any other axis") VFQ("norm", norm_axis(), "any other axis") VFQ("norm0o", norm_ord(0), "any other order") VFQ("norm1o", norm_ord(1), "any other order") VFQ("minkowski", minkowski(), "any other order")
