# development: build and run every property on every unit
D=/tmp/w/cc; mkdir -p $D; R=${ST_REPO:-/repo}
B="-std=c++17 -O1 -g1 -w -include cstdint -include stdexcept -fno-access-control -I$R/include -fsanitize=address,undefined -fno-sanitize-recover=all"
cd /verif/concrete
clang++ $B -c main.cpp -o $D/main.o
ls t*.cpp | sed 's/.cpp//' | xargs -P 8 -I{} sh -c "clang++ $B -DVT_PROP=0 -c {}.cpp -o $D/{}.o && clang++ $B $D/{}.o $D/main.o -o $D/{}"
