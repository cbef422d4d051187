G(__gmpz_init, "w") G(__gmpz_clear, "w") G(__gmpz_set, "wr") G(__gmpz_sizeinbase, "r") G(__gmpz_set_ui, "w") G(__gmpz_set_si, "w")
G(__gmpz_mul, "wrr") G(__gmpz_add, "wrr") G(__gmpz_sub, "wrr") G(__gmpz_sub_ui, "wr") G(__gmpz_add_ui, "wr") G(__gmpz_mul_ui, "wr") G(__gmpz_mul_si, "wr")
G(__gmpz_tstbit, "r") G(__gmpz_pow_ui, "wr") G(__gmpz_divexact, "wrr") G(__gmpz_divexact_ui, "wr") G(__gmpz_setbit, "w") G(__gmpz_probab_prime_p, "r")
G(__gmpz_cmp, "rr") G(__gmpz_mul_2exp, "wr") G(__gmpz_mod, "wrr") G(__gmpz_invert, "wrr") G(__gmpz_cmp_ui, "r") G(__gmpz_tdiv_q_2exp, "wr") G(__gmpz_fdiv_q_2exp, "wr")
G(__gmpz_powm_ui, "wr.r") G(__gmpz_powm, "wrrr") G(__gmpz_jacobi, "rr") G(__gmpz_tdiv_q, "wrr") G(__gmpz_set_str, "w") G(__gmpz_divisible_p, "rr")
G(__gmpz_sqrt, "wr") G(__gmpz_nextprime, "wr") G(__gmpz_gcd, "wrr") G(__gmpz_fdiv_qr, "wwrr") G(__gmpz_scan1, "r") G(__gmpz_realloc, "w")
N(__gmpn_sub_n, 0, 1, 2, 3, 1) N(__gmpn_add_n, 0, 1, 2, 3, 1) N(__gmpn_rshift, 0, 1, -1, 2, 1) N(__gmpn_lshift, 0, 1, -1, 2, 1)
N(__gmpn_mul_1, 0, 1, -1, 2, 1) N(__gmpn_addmul_1, 0, 1, -1, 2, 1) N(__gmpn_mul_n, 0, 1, 2, 3, 2) N(__gmpn_sqr, 0, 1, -1, 2, 2)
