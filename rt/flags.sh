# common flags of harness and runtime compilation
SX_CXXFLAGS="-std=c++20 -O1 -Xclang -disable-llvm-passes -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -fno-builtin-strlen -gline-tables-only -Wno-everything"
