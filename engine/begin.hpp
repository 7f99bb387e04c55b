// Included by every harness (after env.hpp, which is precompiled) and before the headers of /repo.
#define shuffle vf_shuffle
#define uniform_real_distribution vf_uniform_real
#define normal_distribution vf_normal
#define uniform_int_distribution vf_uniform_int
#ifdef VF_SYM
#define double Sym
#define MatrixXd Matrix<Sym, -1, -1>
#define VectorXd Matrix<Sym, -1, 1>
#define RowVectorXd Matrix<Sym, 1, -1>
#define ArrayXd Array<Sym, -1, 1>
#define ArrayXXd Array<Sym, -1, -1>
#endif
