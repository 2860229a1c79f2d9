CONST(epsilon, 0.00000011920928955078125000000000000000000000000000000000L)
CONST(zero, 0.0L)
CONST(one, 1.0000000000000000000000000000000000000000000000000L)
CONST(pi, 3.1415926535897932384626433832795028841971693993751L)
CONST(two_pi, 6.2831853071795864769252867665590057683943387987502L)
CONST(root_pi, 1.7724538509055160272981674833411451827975494561224L)
CONST(half_pi, 1.5707963267948966192313216916397514420985846996876L)
CONST(three_over_two_pi, 4.7123889803846898576939650749192543262957540990627L)
CONST(quarter_pi, 0.78539816339744830961566084581987572104929234984378L)
CONST(one_over_pi, 0.31830988618379067153776752674502872406891929148091L)
CONST(one_over_two_pi, 0.15915494309189533576888376337251436203445964574046L)
CONST(two_over_pi, 0.63661977236758134307553505349005744813783858296183L)
CONST(four_over_pi, 1.2732395447351626861510701069801148962756771659237L)
CONST(two_over_root_pi, 1.1283791670955125738961589031215451716881012586580L)
CONST(one_over_root_two, 0.70710678118654752440084436210484903928483593768847L)
CONST(root_half_pi, 1.2533141373155002512078826424055226265034933703050L)
CONST(root_two_pi, 2.5066282746310005024157652848110452530069867406099L)
CONST(root_ln_four, 1.1774100225154746910115693264596996377473856893858L)
CONST(e, 2.7182818284590452353602874713526624977572470937000L)
CONST(euler, 0.57721566490153286060651209008240243104215933593992L)
CONST(root_two, 1.4142135623730950488016887242096980785696718753769L)
CONST(root_three, 1.7320508075688772935274463415058723669428052538104L)
CONST(root_five, 2.2360679774997896964091736687312762354406183596115L)
CONST(ln_two, 0.69314718055994530941723212145817656807550013436025L)
CONST(ln_ten, 2.3025850929940456840179914546843642076011014886288L)
CONST(ln_ln_two, -0.36651292058166432701243915823266946945426344783711L)
CONST(third, 0.33333333333333333333333333333333333333333333333333L)
CONST(two_thirds, 0.66666666666666666666666666666666666666666666666667L)
CONST(golden_ratio, 1.6180339887498948482045868343656381177203091798058L)
