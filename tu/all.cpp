// Instantiation unit.  It adds no behaviour: it includes /repo's own headers
// and sources and names the template instances whose bodies are verified.
#include "common.cpp"            // /repo/src/common.cpp
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/blocks.h"
#include "matrix/crcsr.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "partition.h"
#include "permute.h"
#include "expand.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

typedef float T;
typedef uint32_t IT;
typedef uint16_t SIT;
typedef Triplet<T,IT> Tri;
typedef Element<T,IT> Ele;

void gsbv_use_spmv(Csr<T,IT>*csr, Csr2<T,IT>*csr2, Coo<T,IT,IT>*coo, Coo<T,IT,SIT>*coos, Coo2<T,IT>*coo2,
    Coo3<T,IT>*coo3, BlockDense<T,IT>*bd, CompRowCsr<T,IT>*crc, Cswr<T,IT,uint8_t>*cw, Cswr<T,IT,IT>*cw4,
    BlockCoo2<T,IT,SIT>*bc2, BlockCsr<T,IT,SIT>*bcsr, BlockCsr<T,IT,IT>*bcsr4,
    Csbr<T,IT>*csbr, Csbr2<T,IT>*csbr2, Cgbr<T,IT,IT>*cgbr, Cgbr<T,IT,SIT>*cgbrs, Cgbr2<T,IT,SIT>*cgbr2,
    BlockCsrSerial<T,IT,SIT>*bcs, BlockCsrParallel<T,IT,SIT>*bcp, DenseParallel<T,IT>*dp, DenseSerial<T,IT>*ds,
    T const*x, T*y)
{
    csr->spmv(x,y); csr->spmv_serial(x,y); csr2->spmv(x,y); csr2->spmv_serial(x,y);
    coo->spmv(x,y); coos->spmv(x,y); coo2->spmv(x,y); coo3->spmv(x,y);
    bd->spmv(x,y); bd->spmv_serial(x,y); spmv(crc,x,y); spmv_serial(crc,x,y);
    cw->spmv(x,y); cw4->spmv(x,y); bc2->spmv(x,y); bcsr->spmv(x,y); bcsr->spmv_serial(x,y); bcsr4->spmv(x,y);
    csbr->spmv(x,y); csbr2->spmv(x,y); cgbr->spmv(x,y); cgbr->spmv_serial(x,y); cgbrs->spmv(x,y); cgbrs->spmv_serial(x,y);
    cgbr2->spmv(x,y); bcs->spmv(x,y); bcp->spmv(x,y); dp->spmv(x,y); ds->spmv(x,y);
}

void gsbv_use_build(Csr<T,IT>*csr, Csr2<T,IT>*csr2, Coo<T,IT,IT>*coo, Coo2<T,IT>*coo2, Coo3<T,IT>*coo3,
    BlockDense<T,IT>*bd, CompRowCsr<T,IT>*crc, Cswr<T,IT,uint8_t>*cw, Cswr<T,IT,IT>*cw4,
    BlockCoo2<T,IT,SIT>*bc2, BlockCsr<T,IT,SIT>*bcsr, Csbr<T,IT>*csbr, Csbr2<T,IT>*csbr2,
    Cgbr<T,IT,IT>*cgbr, Cgbr<T,IT,SIT>*cgbrs, Cgbr2<T,IT,SIT>*cgbr2, MatrixBlock<T,IT,SIT>*mb,
    Tri*t, Ele*e, T*v, IT*I, IT*J, IT rows, IT cols, IT nnz, IT w, bool s, bool al)
{
    Coo_to_Csr(csr,t,rows,cols,nnz,s,al); Coo_to_Csr(csr,e,rows,cols,nnz,s,al); Coo_to_Csr(csr,coo2); Coo_to_Csr(csr,coo3);
    Coo_to_Csr(csr2,t,rows,cols,nnz,s,al); Coo_to_Csr(csr2,e,rows,cols,nnz,s,al); Coo_to_Csr(csr2,coo2); Coo_to_Csr(csr2,coo3);
    Coo_to_Csr(bcsr,e,rows,cols,nnz,s); Coo_to_Csr(bcsr,e,rows,cols,nnz);
    Coo_to_Coo(coo,coo2); Coo_to_Coo(coo,coo3); Coo_to_Coo(coo2,coo3); Coo_to_Coo(coo3,coo2);
    Coo_to_Coo(coo,v,I,J,rows,cols,nnz); Coo_to_Coo(coo2,v,I,J,rows,cols,nnz); Coo_to_Coo(coo3,v,I,J,rows,cols,nnz);
    Coo_to_Coo(coo,t,rows,cols,nnz); Coo_to_Coo(coo,e,rows,cols,nnz); Coo_to_Coo(coo2,e,rows,cols,nnz);
    Coo_to_Coo(bc2,e,nnz);
    Coo_to_Dense(bd,t,rows,cols,nnz); Coo_to_Dense(bd,coo2); Coo_to_Dense(bd,coo3);
    Coo_to_CrCsr(crc,t,nnz); Coo_to_CrCsr(crc,t,nnz,w); Coo_to_CrCsr(crc,coo2); Coo_to_CrCsr(crc,coo3);
    Coo_to_Cswr(cw,t,rows,cols,nnz,w); Coo_to_Cswr(cw,e,rows,cols,nnz,w); Coo_to_Cswr(cw4,t,rows,cols,nnz,w);
    Coo_to_Cswr(cw,coo2); Coo_to_Cswr(cw,coo3);
    Coo_to_Csbr(csbr,coo2,I,rows,J,cols); Coo_to_Csbr(csbr,coo3,I,rows,J,cols);
    Coo_to_Csbr(csbr,coo2,rows,cols); Coo_to_Csbr(csbr,coo3,rows,cols);
    Coo_to_Csbr(csbr2,coo3,I,rows,J,cols); Coo_to_Csbr(csbr2,coo3,rows,cols);
    Coo_to_Cgbr(cgbr,coo3,I,rows,J,cols); Coo_to_Cgbr(cgbrs,coo3,I,rows,J,cols);
    Coo_to_Cgbr(cgbr,coo3,rows,cols); Coo_to_Cgbr(cgbrs,coo3,rows,cols);
    Coo_to_Cgbr(cgbr2,coo3,I,rows,J,cols); Coo_to_Cgbr(cgbr2,coo3,rows,cols);
    Coo_to_Blocked(csbr,coo3,rows,cols);
    Coo_to_MatrixBlock(mb,rows,cols,e,nnz);
    BlockFactoryDefault<T,IT,SIT> f; BlockBase<T,IT>*bb; f.create(&bb,e,rows,cols,nnz);
    delete bb;
    release(*csr); release(*csr2); release(*coo); release(*coo2); release(*coo3); release(*bd); release(*crc);
    release(*cw); release(*bc2); release(*bcsr); release(*csbr); release(*csbr2); release(*cgbr); release(*cgbrs);
    release(*cgbr2); release(mb);
}

void gsbv_use_util(Tri*t, Ele*e, Triplet<T,SIT>*ts, IT*I, IT*J, IT a, IT b, IT c, bool rm, BlockRowPartition<IT>*p,
    Csbr<T,IT>*csbr, Cgbr<T,IT,SIT>*cgbr, Cgbr2<T,IT,SIT>*cgbr2)
{
    pick_block_size(a,b,sizeof(T),(int)c); index_to_blockindex(I,a,b); size_to_offset(I,(const IT*)J,a);
    sort_triplets(t,a,rm); sort_triplets(t,a); sort_triplets(e,a,rm); sort_triplets(e,a);
    bit_interleave(a,b); bit_interleave((SIT)a,(SIT)b); sort_triplets_morton(t,a); sort_triplets_morton(e,a); sort_triplets_morton(ts,a);
    sort_triplets_blocks(t,a,I,b,J,c); sort_elements_blocks(e,a); sort_triplets_widerows(t,a,b);
    calculate_block_id(e,a,I,b,J,c); calculate_block_id(e,a,b,c,b); count_blocks(e,a);
    count_nnz_rows(t,a); count_nnz_rows(e,a);
    invert_permutation((IT const*)I,a); permute_indeces(I,J,a); permute_indeces(t,a,J); permute_indeces(e,a,J);
    expand_block_size(I,a); expand_index(I,a,b,c); expand_indeces(I,a,J,b); expand_indeces(e,a,I,J,b);
    partition_init(csbr); partition_init(cgbr); partition_init(cgbr2);
    partition_blockrow(csbr,p,a,b);
}

IT gsbv_use_access(Coo<T,IT,IT>*coo, Coo2<T,IT>*c2, Coo3<T,IT>*c3, BlockCoo<T,IT,SIT>*bc, BlockCoo2<T,IT,SIT>*bc2,
    Csr<T,IT>*csr, Csr2<T,IT>*csr2, BlockCsr<T,IT,SIT>*bcsr, CompRowCsr<T,IT>*crc, Cswr<T,IT,uint8_t>*cw,
    Csbr<T,IT>*csbr, Csbr2<T,IT>*csbr2, Cgbr<T,IT,SIT>*cgbr, Cgbr2<T,IT,SIT>*cgbr2, Ele*e, T const*x, T*y, IT i)
{
    Coo_to_Coo(bc,e,i); bc->spmv(x,y); release(*bc); release(*bc2);
    bc->set_row_index(i,i); bc->set_column_index(i,i); bc->set_value(i,y[0]);
    y[0] = coo->get_value(i) + c2->get_value(i) + c3->get_value(i) + bc->get_value(i);
    return coo->get_row_index(i) + coo->get_column_index(i) + c2->get_row_index(i) + c2->get_column_index(i)
        + c3->get_row_index(i) + c3->get_column_index(i) + bc->get_row_index(i) + bc->get_column_index(i)
        + coo->nonzeros() + c2->nonzeros() + c3->nonzeros() + bc->nonzeros() + bc2->nonzeros() + csr->nonzeros()
        + csr2->nonzeros() + bcsr->nonzeros() + crc->nonzeros() + cw->nonzeros()
        + csbr->nonzeros() + csbr2->nonzeros() + cgbr->nonzeros() + cgbr2->nonzeros();
}

void gsbv_use_io(Coo<T,IT,IT>*coo, Coo2<T,IT>*c2, Coo3<T,IT>*c3, Csr<T,IT>*csr, Csbr<T,IT>*csbr, Csbr2<T,IT>*csbr2,
    Cgbr<T,IT,SIT>*cgbr, IT*I, IT*J, IT a, IT b, const char*f, const char*g, const char*h, size_t n)
{
    read_bin_array(f,&I,&n); write_bin_array(f,I,n);
    read_bin_COO(coo,f,g,h); read_bin_COO(c2,f,g,h); read_bin_COO(c3,f,g,h);
    read_bin_COO(c2,f); read_bin_COO(c3,f); read_COO(c2,f); read_COO(c3,f); read_mm_COO(c2,f); read_mm_COO(c3,f);
    read_bin_CSR(csr,f);
    write_mm_COO(c2,f); write_bin_COO(c2,f,g,h); write_bin_COO(*c2,f); write_mm_COO(c3,f); write_bin_COO(c3,f,g,h); write_bin_COO(*c3,f);
    write_bin_blocked(*c3,f);
    read_bin_blocked(csbr,f,I,a,J,b); read_bin_blocked(csbr2,f,I,a,J,b); read_bin_blocked(cgbr,f,I,a,J,b);
}

void gsbv_use_io_double(Coo2<double,IT>*c2, Coo3<double,IT>*c3, Csr<double,IT>*csr, double*d, const char*f, const char*g, const char*h, size_t n)
{
    read_bin_array(f,&d,&n); write_bin_array(f,d,n);
    read_bin_COO(c2,f,g,h); read_bin_COO(c3,f,g,h); read_bin_COO(c2,f); read_bin_COO(c3,f); read_bin_CSR(csr,f);
    write_bin_COO(c2,f,g,h); write_bin_COO(*c2,f); write_bin_COO(c3,f,g,h); write_bin_COO(*c3,f); write_bin_blocked(*c3,f);
}
