"""a table entry is overwritten where it should be added to"""
F = "src/linear_gkr/prover_fast_track.cpp"
Q = "src/linear_gkr/prover_fast_para_track.cpp"
TC = "src/traditional_gkr/prover_clogc.cpp"
M = MUTANTS = []
A1 = "				addV_array[u].b.value = (addV_array[u].b.value + circuit_value[sumcheck_layer_id - 1][v].value * tmp) % prime_field::mod;\n				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + tmp) % prime_field::mod;\n				break;"
M.append(("ow-add", "prove-linear", ["H01"], {F: [(A1, A1.replace("(addV_array[u].b.value + ", "("))]}))
M.append(("ow-mult", "prove-linear", ["H01"], {F: [("				add_mult_sum[u].b.value = (add_mult_sum[u].b.value + circuit_value[sumcheck_layer_id - 1][v].value * tmp) % prime_field::mod;\n				break;", "				add_mult_sum[u].b.value = (circuit_value[sumcheck_layer_id - 1][v].value * tmp) % prime_field::mod;\n				break;", 0)]}))
