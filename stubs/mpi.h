#pragma once
typedef int MPI_Comm; typedef int MPI_Op; typedef int MPI_Datatype; typedef long MPI_Aint;
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
#define MPI_COMM_WORLD 0
#define MPI_DOUBLE 1
#define MPI_INT 2
#define MPI_UNDEFINED (-1)
#define MPI_COMM_NULL (-2)
#define MPI_LONG 4
#define MPI_CHAR 5
#define MPI_IN_PLACE ((void*)1)
extern "C" { int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Barrier(MPI_Comm); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_size(MPI_Comm,int*); int MPI_Init(int*,char***); int MPI_Finalize(); int MPI_Initialized(int*); int MPI_Abort(MPI_Comm,int);}
