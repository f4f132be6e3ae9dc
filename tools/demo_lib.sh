# Sourced by demo.sh (cwd: the repository). build SYSTEM [extra flags]: compiles demo.cpp against the sources of SYSTEM and scisim.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
build()
{
  local sys=$1; shift
  FL="-std=c++14 -O1 -w -DCMAKE_DETECTED_GNU_COMPILER -DEIGEN_DONT_PARALLELIZE -I$PWD -I$HERE -isystem /usr/include/eigen3 $*"
  find scisim $sys -name '*.cpp' | grep -v -e Ipopt -e QL -e Python -e HDF5 -e ImpactSolution -e StateOutput -e Sobogus -e /bogus/ | sort > "$T/src"
  for x in $sys; do ls $x/PythonScripting.cpp >> "$T/src" 2>/dev/null; done
  [ -n "$PYTHON" ] && printf "scisim/PythonObject.cpp\nscisim/PythonTools.cpp\n" >> "$T/src"
  xargs -a "$T/src" -P 8 -I{} sh -c 'g++ '"$FL"' -c {} -o "'"$T"'/$(echo {} | tr / _).o" || echo "not compiled: {}"' 2>/dev/null
  ar rcs "$T/lib.a" "$T"/*.o
  g++ $FL -Wl,--unresolved-symbols=ignore-all -o "$T/demo" "$HERE/demo.cpp" "$T/lib.a" || exit 3
}
