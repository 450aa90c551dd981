// Analysis driver: names every public entry point of htool once, for a real and a
// complex coefficient type, so that the extractor sees instantiated, resolved code.
// Never linked and never run.
#include "htool/htool.hpp"
#include "htool/clustering/cluster_output.hpp"
#include "htool/distributed_operator/utility.hpp"
#include "htool/hmatrix/hmatrix_distributed_output.hpp"
#include "htool/hmatrix/hmatrix_output.hpp"
#include "htool/local_operators/local_dense_matrix.hpp"
#include "htool/local_operators/local_hmatrix.hpp"
#include "htool/matrix/utils/SVD_truncation.hpp"

using namespace htool;

template <typename T>
struct DriveKernels {
    using R = underlying_type<T>;
    using M = Matrix<T>;
    using L = LowRankMatrix<T, R>;
    using H = HMatrix<T, R>;

    static void dense(char ta, char tb, char side, char uplo, char diag, T alpha, const M &A, const M &B, T beta, M &C, const T *in, T *out, int mu) {
        add_matrix_vector_product(ta, alpha, A, in, beta, out);
        add_symmetric_matrix_vector_product(uplo, alpha, A, in, beta, out);
        add_hermitian_matrix_vector_product(uplo, alpha, A, in, beta, out);
        add_matrix_matrix_product(ta, tb, alpha, A, B, beta, C);
        add_symmetric_matrix_matrix_product(side, uplo, alpha, A, B, beta, C);
        add_hermitian_matrix_matrix_product(side, uplo, alpha, A, B, beta, C);
        add_matrix_matrix_product_row_major(ta, tb, alpha, A, in, beta, out, mu);
        add_symmetric_matrix_matrix_product_row_major(side, uplo, alpha, A, in, beta, out, mu);
        add_hermitian_matrix_matrix_product_row_major(side, uplo, alpha, A, in, beta, out, mu);
        scale(alpha, C);
        transpose(A, C);
        lu_factorization(C);
        lu_solve(ta, A, C);
        cholesky_factorization(uplo, C);
        cholesky_solve(uplo, A, C);
        triangular_matrix_matrix_solve(side, uplo, ta, diag, alpha, A, C);
        std::vector<R> sv;
        M u, vt;
        SVD_truncation(C, R(1), u, vt, sv);
    }
    static void matrix_members(M &A, const M &B, T v, std::vector<T> &x) {
        M c(B);
        M d(std::move(c));
        c = B;
        d = std::move(c);
        A = v;
        A.resize(1, 1, v);
        A.assign(1, 1, A.release(), true);
        x = B * x;
        c = B * v;
        c = v * B;
        c = A + B;
        c = A - B;
        c = A * B;
    }
    static void lowrank(char ta, char tb, T alpha, const L &A, const L &B, const M &D, T beta, L &C, M &E, const T *in, T *out, int mu, const Cluster<R> &c1, const Cluster<R> &c2, const Cluster<R> &c3, const Cluster<R> &c4) {
        add_lrmat_vector_product(ta, alpha, A, in, beta, out);
        add_lrmat_matrix_product(ta, tb, alpha, A, D, beta, E);
        add_lrmat_matrix_product(ta, tb, alpha, A, D, beta, C);
        add_lrmat_matrix_product_row_major(ta, tb, alpha, A, in, beta, out, mu);
        add_matrix_lrmat_product(ta, tb, alpha, D, A, beta, E);
        add_matrix_lrmat_product(ta, tb, alpha, D, A, beta, C);
        add_lrmat_lrmat_product(ta, tb, alpha, A, B, beta, E);
        add_lrmat_lrmat_product(ta, tb, alpha, A, B, beta, C);
        add_matrix_matrix_product(ta, tb, alpha, D, E, beta, C);
        add_lrmat_lrmat(A, c1, c2, C, c3, c4);
        scale(alpha, C);
        recompression(C);
        auto p = recompression(A);
        (void)p;
        Frobenius_absolute_error<T, R>(c1, c2, A, *static_cast<const VirtualInternalGenerator<T> *>(nullptr), 0);
    }
    static void hierarchical(char ta, char tb, char side, char uplo, char diag, T alpha, const H &A, const H &B, const L &LR, const M &D, T beta, H &C, L &LC, M &E, const T *in, T *out, int mu) {
        internal_add_hmatrix_vector_product(ta, alpha, A, in, beta, out);
        sequential_internal_add_hmatrix_vector_product(ta, alpha, A, in, beta, out);
        openmp_internal_add_hmatrix_vector_product(ta, alpha, A, in, beta, out);
        internal_add_hmatrix_matrix_product_row_major(ta, tb, alpha, A, in, beta, out, mu);
        sequential_internal_add_hmatrix_matrix_product_row_major(ta, tb, alpha, A, in, beta, out, mu);
        openmp_internal_add_hmatrix_matrix_product_row_major(ta, tb, alpha, A, in, beta, out, mu);
        internal_add_hmatrix_matrix_product(ta, tb, alpha, A, D, beta, E);
        internal_add_hmatrix_matrix_product(ta, tb, alpha, A, D, beta, LC);
        internal_add_matrix_hmatrix_product(ta, tb, alpha, D, A, beta, E);
        internal_add_matrix_hmatrix_product(ta, tb, alpha, D, A, beta, LC);
        internal_add_hmatrix_lrmat_product(ta, tb, alpha, A, LR, beta, E);
        internal_add_hmatrix_lrmat_product(ta, tb, alpha, A, LR, beta, LC);
        internal_add_hmatrix_lrmat_product(ta, tb, alpha, A, LR, beta, C);
        internal_add_lrmat_hmatrix_product(ta, tb, alpha, LR, A, beta, E);
        internal_add_lrmat_hmatrix_product(ta, tb, alpha, LR, A, beta, LC);
        internal_add_lrmat_hmatrix_product(ta, tb, alpha, LR, A, beta, C);
        internal_add_hmatrix_hmatrix_product(ta, tb, alpha, A, B, beta, E);
        internal_add_hmatrix_hmatrix_product(ta, tb, alpha, A, B, beta, LC);
        internal_add_hmatrix_hmatrix_product(ta, tb, alpha, A, B, beta, C);
        internal_add_lrmat_hmatrix(LR, C);
        scale(alpha, C);
        sequential_scale(alpha, C);
        openmp_scale(alpha, C);
        lu_factorization(C);
        cholesky_factorization(uplo, C);
        internal_lu_solve(ta, A, E);
        internal_cholesky_solve(uplo, A, E);
        lu_solve(ta, A, E);
        cholesky_solve(uplo, A, E);
        internal_triangular_hmatrix_matrix_solve(side, uplo, ta, diag, alpha, A, E);
        internal_triangular_hmatrix_matrix_solve_row_major(side, uplo, ta, diag, alpha, A, E);
        internal_triangular_hmatrix_lrmat_solve(side, uplo, ta, diag, alpha, A, LC);
        internal_triangular_hmatrix_hmatrix_solve(side, uplo, ta, diag, alpha, A, C);
        copy_to_dense(A, out);
        copy_to_dense_in_user_numbering(A, out);
        copy_diagonal(A, out);
        copy_diagonal_in_user_numbering(A, out);
        auto leaves = get_leaves_from(A);
        (void)leaves;
        auto leaves2 = get_leaves_from(C);
        (void)leaves2;
        H h1(A);
        H h2(std::move(h1));
        h1 = A;
        h2 = std::move(h1);
    }
    static void outputs(const H &A, std::ostream &os, MPI_Comm comm) {
        print_tree_parameters(A, os);
        print_hmatrix_information(A, os);
        print_distributed_hmatrix_information(A, os, comm);
        save_leaves_with_rank(A, "x");
        save_levels(A, "x", std::vector<int>());
    }
    static void vectors(std::vector<T> &a, const std::vector<T> &b, T v, const std::string &f) {
        std::vector<T> c = a + b;
        c                = plus(a, b);
        c                = a - b;
        c                = minus(a, b);
        c                = mult(v, a);
        c                = a / v;
        a *= v;
        a /= v;
        dprod(a, b);
        norm2(a);
        mean(a);
        vector_to_bytes(a, f);
        bytes_to_vector(a, f);
        conj_if_complex(a.data(), 1);
        conj_if_complex<T>(v);
    }
    template <typename C2>
    static void numbering(const Cluster<R> &c, const T *in, T *out) {
        user_to_cluster(c, in, out);
        cluster_to_user(c, in, out);
        root_cluster_to_global(c, in, out);
        global_to_root_cluster(c, in, out);
        local_cluster_to_local(c, 0, in, out);
        local_to_local_cluster(c, 0, in, out);
    }
};
template struct DriveKernels<double>;
template struct DriveKernels<std::complex<double>>;
template void DriveKernels<double>::numbering<int>(const Cluster<double> &, const double *, double *);
template void DriveKernels<std::complex<double>>::numbering<int>(const Cluster<double> &, const std::complex<double> *, std::complex<double> *);

template <typename R>
struct DriveClusters {
    static void go(const Cluster<R> &c, const R *x, const std::vector<int> &d) {
        ClusterTreeBuilder<R> b;
        Cluster<R> t = b.create_cluster_tree(1, 3, x, 2, 2);
        Cluster<R> u(std::move(t));
        t = std::move(u);
        save_cluster_tree(c, "x");
        auto r = read_cluster_tree<R>("x", "y");
        save_clustered_geometry(c, 3, x, "x", d);
        print(c);
        is_cluster_on_partition(c);
        left_cluster_contains_right_cluster(c, c);
        ComputeLargestExtent<R> e1;
        ComputeBoundingBox<R> e2;
        RegularSplitting<R> s1;
        GeometricSplitting<R> s2;
        RjasanowSteinbach<R> rs;
        (void)e1;
        (void)e2;
        (void)s1;
        (void)s2;
        (void)rs;
    }
};
template struct DriveClusters<double>;

// every member of the class templates
template class htool::Cluster<double>;
template class htool::ClusterTreeBuilder<double>;
template class htool::Matrix<double>;
template class htool::Matrix<std::complex<double>>;
template class htool::HMatrix<double, double>;
template class htool::HMatrix<std::complex<double>, double>;
template class htool::HMatrixTreeBuilder<double, double>;
template class htool::HMatrixTreeBuilder<std::complex<double>, double>;
template class htool::SVD<double, double>;
template class htool::SVD<std::complex<double>, double>;
template class htool::fullACA<double, double>;
template class htool::fullACA<std::complex<double>, double>;
template class htool::partialACA<double, double>;
template class htool::partialACA<std::complex<double>, double>;
template class htool::sympartialACA<double, double>;
template class htool::sympartialACA<std::complex<double>, double>;
template class htool::DistributedOperator<double>;
template class htool::DistributedOperator<std::complex<double>>;
template class htool::PartitionFromCluster<double, double>;
template class htool::PartitionFromCluster<std::complex<double>, double>;
template class htool::LocalOperator<double, double>;
template class htool::LocalOperator<std::complex<double>, double>;
template class htool::LocalDenseMatrix<double, double>;
template class htool::LocalDenseMatrix<std::complex<double>, double>;
template class htool::CustomApproximationBuilder<double>;
template class htool::CustomApproximationBuilder<std::complex<double>>;
template class htool::DistributedOperatorFromHMatrix<double>;
template class htool::DistributedOperatorFromHMatrix<std::complex<double>>;
template class htool::DefaultApproximationBuilder<double>;
template class htool::DefaultApproximationBuilder<std::complex<double>>;
template class htool::DefaultLocalApproximationBuilder<double>;
template class htool::DefaultLocalApproximationBuilder<std::complex<double>>;
template class htool::InternalGeneratorWithPermutation<double>;
template class htool::InternalGeneratorWithPermutation<std::complex<double>>;
