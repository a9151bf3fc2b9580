# sourced by demo.sh: build_demo <prog 1|2|3> <demo.cpp> <out>
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
build_demo() {
	case $1 in
	0) s="";;
	1) s="src/linear_gkr/verifier_fast_track.cpp src/linear_gkr/prover_fast_track.cpp";;
	2) s="src/traditional_gkr/verifier_traditional.cpp src/traditional_gkr/prover_clogc.cpp";;
	3) s="src/traditional_gkr/verifier_bc_clogc.cpp src/traditional_gkr/prover_bc_clogc.cpp";;
	esac
	local objs="" w="" x
	for x in $s src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp; do
		clang++ -w -O2 -march=native -std=c++11 -I include -c $x -o "$work/$(basename $x).o" || return 1
		objs="$objs $work/$(basename $x).o"
	done
	[ $1 = 0 ] || for x in 8evaluateEv 20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_ 22sumcheck_phase0_updateEN11prime_field13field_elementEi 22sumcheck_phase1_updateEN11prime_field13field_elementEi 22sumcheck_phase2_updateEN11prime_field13field_elementEi 17sumcheck_finalizeEN11prime_field13field_elementE 13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_ 13sumcheck_initEiiiiiRKN11prime_field13field_elementES3_PS2_S4_S4_PS1_S5_S5_; do
		w="$w -Wl,--wrap=_ZN6prover$x"
	done
	clang++ -w -O2 -march=native -std=c++11 -DPROG=$1 -I include -I "$here" "$2" $objs $w -o "$3" -lgmp -lgmpxx
}
