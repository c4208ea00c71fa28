"""Edits that keep the behaviour; see refactor.py.  Three independent sets of (file, old, new)."""

NORM = '''
/**
   \\brief The weighted root-mean-square norm of an error estimate.
*/
inline double weighted_norm(const arma::vec &e, const arma::vec &y0, const arma::vec &y1,
                            double atol, double rtol)
{
	double sum = 0.0;
	std::size_t i = e.size();
	while (i > 0) {
		--i;
		const double ratio = e(i) / (atol + rtol*std::max(std::fabs(y0(i)), std::fabs(y1(i))));
		sum += ratio*ratio;
	}
	double norm = std::sqrt(sum / e.size());
	if (!(norm < hopeless_error)) return hopeless_error;
	return norm < machine_precision ? machine_precision : norm;
}

'''

A = [
# ---- explicit methods: sums in another order, helpers ----
("erk.hpp", '''/**
   \\brief Guts of the explicit RK integrator.''', '''
template <typename eval_type> inline
void explicit_stages(eval_type &eval, mat_type &Ks, const solver_coeffs &sc, const vec_type &y,
                     double t, double dt, std::size_t first)
{
	const std::size_t Ns = sc.b.size();
	for (std::size_t i = first; i < Ns; ++i) {
		vec_type slope = arma::zeros(y.size());
		for (std::size_t j = i; j > 0; --j) {
			slope += sc.A(i,j-1)*Ks.col(j-1);
		}
		Ks.col(i) = eval(t + sc.c(i)*dt, y + dt*slope);
	}
}

''' + NORM.replace("hopeless_error", "erk_hopeless").replace("machine_precision", "erk_tiny") + '''
/**
   \\brief Guts of the explicit RK integrator.'''),
("erk.hpp", '''		for (std::size_t i = stage_iter_start; i < Ns; ++i) {
			vec_type tmp = y;
			for (std::size_t j = 0; j < i; ++j) {
				tmp += dt*sc.A(i,j)*Ks.col(j);
			}
			Ks.col(i) = eval_fun(t + sc.c(i)*dt, tmp);
		}
''', '''		explicit_stages(eval_fun, Ks, sc, y, t, dt, stage_iter_start);
'''),
("erk.hpp", '''			double err_tot = 0.0;
			double atol = solver_opts.abs_tol, rtol = solver_opts.rel_tol;
			// err_est is ||y1 - yhat1|| in Wanner & Hairer.
			err_est = dt*(delta_alt - delta_y);
			double n = Neq;
			for (std::size_t i = 0; i < Neq; ++i) {
				double erri = err_est(i);
				double y0i  = std::fabs(y(i));
				double y1i  = std::fabs(y_n(i));
				double sci  = atol + rtol * std::max(y0i, y1i);
				double add = erri / sci;
				err_tot += add*add;
			}
			err = std::sqrt(err_tot / n);
			if (err < machine_precision) {
				err = machine_precision;
			}
			// This includes NaN, which should be rejected too:
			if (!(err < hopeless_error)) {
				err = hopeless_error;
			}
''', '''			err_est = Ks*(dt*(sc.b2 - sc.b));
			err = weighted_norm(err_est, y, y_n, solver_opts.abs_tol, solver_opts.rel_tol);
'''),
("erk.hpp", '''			double fac  = 0.9;
			double expt = 1.0 / (1.0 + min_order);
			double err_inv = 1.0 / err;
			double scale_27 = std::pow(err_inv, expt);
''', '''			double fac  = 0.9;
			double scale_27 = std::pow(err, -1.0 / (1.0 + min_order));
'''),
("erk.hpp", '''			vec_type delta_alt = Ks*sc.b2;

''', ''),
# ---- implicit methods ----
("irk.hpp", '''/**
   \\brief Construct the residual vector of the non-linear systme to solve.
*/''', NORM + '''
/**
   \\brief Construct the residual vector of the non-linear systme to solve.
*/'''),
("irk.hpp", '''	vec_type F(Y.size());
	std::size_t Ns = sc.b.size();
	std::size_t Neq = y.size();
	vec_type e = arma::ones(Ns);
	arma::vec R = Y;
	for (std::size_t i = 0; i < Ns; ++i) {
		std::size_t i0 = Neq*i;
		std::size_t i1 = i0 + Neq - 1;

		auto Yi = Y.subvec(i0,i1);
		F.subvec(i0, i1) = func.fun(t + sc.c(i)*dt, y + Yi);
	}
	R -= dt*arma::kron(sc.A, I_neq)*F;
	return R;
''', '''	const std::size_t Ns = sc.b.size(), Neq = y.size();
	(void) I_neq;
	mat_type F(Neq, Ns), Z(Y);
	Z.reshape(Neq, Ns);
	std::size_t i = 0;
	while (i < Ns) {
		const vec_type at = y + Z.col(i);
		F.col(i) = func.fun(t + dt*sc.c(i), at);
		++i;
	}
	const mat_type R = Z - dt*(F*sc.A.t());
	return arma::vectorise(R);
'''),
("irk.hpp", '''			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
			dY  = arma::solve(arma::trimatu(U), tmp);''', '''			vec_type tmp = arma::solve(arma::trimatl(L), P*R);
			dY  = arma::solve(arma::trimatu(U), -tmp);'''),
("irk.hpp", '''		double err_tot = 0.0;
		double n = 0.0;
		double atol = solver_opts.abs_tol;
		double rtol = solver_opts.rel_tol;
		for( std::size_t i = 0; i < err_est.size(); ++i ){
			double erri = err_est[i];
			double y0i  = std::fabs( y[i] );
			double y1i  = std::fabs( y_n[i] );
			double sci  = atol + rtol * std::max( y0i, y1i );

			double add = erri / sci;
			err_tot += add * add;
			n += 1.0;
		}

		err = std::sqrt( err_tot / n );


		if( err < machine_precision ){
			err = machine_precision;
		}
		// This includes NaN, which should be rejected too:
		if( !( err < hopeless_error ) ){
			err = hopeless_error;
		}
''', '''		err = weighted_norm(err_est, y, y_n, solver_opts.abs_tol, solver_opts.rel_tol);
'''),
("irk.hpp", '''		double scale_28 = scale_27 * dt_rat * err_rat;
''', '''		double scale_28 = err_rat * dt_rat * scale_27;
'''),
("irk.hpp", '''			for (std::size_t i = 0; i < Ns; ++i) {
				vec_type Yi = y + YYs.col(i);
				YYs.col(i) = dt*func.fun(t + sc.c(i)*dt, Yi);
			}
			sol.count.fun_evals += Ns;
''', '''			mat_type slopes(Neq, Ns);
			for (std::size_t i = 0; i < Ns; ++i) {
				slopes.col(i) = func.fun(t + dt*sc.c(i), y + YYs.col(i));
				sol.count.fun_evals++;
			}
			YYs = dt*slopes;
'''),
("irk.hpp", '''		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
''', '''		mat_type solve_tmp = -gam*J;
		solve_tmp.diag() += 1.0;
'''),
# ---- multistep ----
("multistep.hpp", '''	switch(order) {
	case 1:
		Y += dt*func.fun(t, history[0]);
		break;
	case 2:
		Y += dt*(C[1][0]*func.fun(t, history[0]) +
		         C[1][1]*func.fun(t - dt, history[1]));
		break;
	case 3:
		Y += dt*(C[2][0]*func.fun(t, history[0]) +
		         C[2][1]*func.fun(t - dt, history[1]) +
		         C[2][2]*func.fun(t - 2*dt, history[2]));
		break;
	case 4:
		Y += dt*(C[3][0]*func.fun(t, history[0]) +
		         C[3][1]*func.fun(t - dt, history[1]) +
		         C[3][2]*func.fun(t - 2*dt, history[2]) +
		         C[3][3]*func.fun(t - 3*dt, history[3]));
		break;
	case 5:
		Y += dt*(C[4][0]*func.fun(t, history[0]) +
		         C[4][1]*func.fun(t - dt, history[1]) +
		         C[4][2]*func.fun(t - 2*dt, history[2]) +
		         C[4][3]*func.fun(t - 3*dt, history[3]) +
		         C[4][4]*func.fun(t - 4*dt, history[4]));
		break;

	default:
		assert("Adams-Bashforth cannot have order > 5 or order < 0"
		       && false);
		break;
	}
''', '''	assert(order >= 1 && order <= 5 && "Adams-Bashforth has orders 1 to 5");
	vec_type slope = arma::zeros(Y.size());
	for (int k = order - 1; k >= 0; --k) {
		slope += C[order-1][k]*func.fun(t - k*dt, history[k]);
	}
	Y += dt*slope;
'''),
("multistep.hpp", '''		vec_type interpolation_part;
		interpolation_part.zeros(y0.size());
		for (std::size_t i = 0; i < solver_opts.order; ++i) {
			interpolation_part += bdf_params[i]*history[i];
		}
''', '''		vec_type interpolation_part = bdf_params[0]*history[0];
		for (int i = solver_opts.order - 1; i > 0; --i) {
			interpolation_part += bdf_params[i]*history[i];
		}
'''),
# ---- root finding ----
("newton.hpp", '''	vec_type f0 = func.fun(y);
	vec_type new_yp = y;
	vec_type new_ym = y;

	for( std::size_t j = 0; j < N; ++j ){
		double old_y_j = y(j);

		new_yp(j) += h;
		new_ym(j) -= h;
		vec_type fp = func.fun( new_yp );
		vec_type fm = func.fun( new_ym );

		vec_type delta = fp - fm;
		delta /= (2.0*h);

		for( std::size_t i = 0; i < N; ++i ){
			J_approx(i,j) = delta(i);
		}


		new_yp(j) = old_y_j;
		new_ym(j) = old_y_j;

	}
''', '''	vec_type x = y;
	for( std::size_t j = N; j > 0; --j ){
		x(j-1) = y(j-1) - h;
		const vec_type fm = func.fun( x );
		x(j-1) = y(j-1) + h;
		const vec_type fp = func.fun( x );
		x(j-1) = y(j-1);
		J_approx.col(j-1) = (fp - fm)/(2.0*h);
	}
'''),
("newton.hpp", '''		vec_type direction = -lambda*(Jaci*f0);
''', '''		vec_type direction = Jaci*(-lambda*f0);
'''),
("newton.hpp", '''		Jaci += left_part*xt_J / norm;
''', '''		Jaci += (left_part/norm)*xt_J;
'''),
("newton.hpp", '''				direction *= opts.max_step/norm/lambda;
''', '''				direction *= opts.max_step/(lambda*norm);
'''),
# ---- the rest ----
("cyclic_buffer.hpp", '''		if (next_spot >= period_) {

			storage_[next_spot] = t;
			storage_[next_spot - period_] = t;
		} else {
			storage_[next_spot] = t;
		}
''', '''		storage_[next_spot] = t;
		storage_[(next_spot + period_) % (2*period_)] = storage_[next_spot];
'''),
("irk.cpp", '''	std::size_t Ns = c.size();
	vec_type d(Ns);

	for( std::size_t i = 0; i < Ns; ++i ){
		double cfacs = 1.0;
		for( std::size_t j = 0; j < Ns; ++j ){
			if( j == i ) continue;
			cfacs *= c(i) - c(j);
		}
		d(i) = cfacs;
	}
''', '''	const std::size_t Ns = c.size();
	if( Ns > 0 ){
		mat_type weights = arma::zeros( Ns, Ns );
		for( std::size_t i = 0; i < Ns; ++i ){
			// poly(k) belongs to x^k.
			vec_type poly = arma::zeros( Ns );
			poly(0) = 1.0;
			std::size_t degree = 0;
			for( std::size_t j = 0; j < Ns; ++j ){
				if( j == i ) continue;
				++degree;
				for( std::size_t k = degree + 1; k-- > 0; ){
					poly(k) = ( ( k > 0 ? poly(k-1) : 0.0 ) - c(j)*poly(k) )
						/ ( c(i) - c(j) );
				}
			}
			for( std::size_t k = 0; k < Ns; ++k ){
				weights(i, Ns - k - 1) = poly(k)/( k + 1.0 );
			}
		}
		return weights;
	}
	vec_type d(Ns);
'''),
("irk.cpp", '''	std::size_t Ns = sc.b.size();
        vec_type ts(Ns);

	// ts will contain { t, t^2, t^3, ..., t^{Ns} }
	double tt = theta;
	for( std::size_t i = 0; i < Ns; ++i ){
		int j = Ns - i - 1;
		ts(j) = tt;
		tt *= theta;
	}
	// Now bs = sc.b_interp * ts;
        return sc.b_interp * ts;
''', '''	// Horner's rule, the highest power comes first.
	vec_type weights = arma::zeros( sc.b.size() );
	for( std::size_t k = 0; k < sc.b_interp.n_cols; ++k ){
		weights = theta*( weights + sc.b_interp.col(k) );
	}
	return weights;
'''),
("irk.cpp", '''	merger.t_vals.insert( merger.t_vals.end(),
	                      sol2.t_vals.begin(), sol2.t_vals.end() );
	merger.y_vals.insert( merger.y_vals.end(),
	                      sol2.y_vals.begin(), sol2.y_vals.end() );
''', '''	const std::size_t n2 = sol2.t_vals.size();
	for( std::size_t i = 0; i < n2; ++i ) merger.t_vals.push_back( sol2.t_vals[i] );
	for( const vec_type &y : sol2.y_vals ) merger.y_vals.push_back( y );
'''),
("my_timer.hpp", '''		return (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +
			(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;
''', '''		const double usec = 1e6*(t_toc.tv_sec - user_tic.tv_sec)
			+ (t_toc.tv_usec - user_tic.tv_usec);
		return usec/1000.0;
'''),
("stability_region/main.cpp", '''	std::complex<double> one(1.0,0.0);
	// gamma is the weight of the slope at the start of the step.
	return one + z*(gamma + arma::dot(b, Ai*e));
''', '''	const arma::cx_vec Y = Ai*e;
	std::complex<double> sum(gamma, 0.0);
	for (std::size_t i = N; i > 0; --i) sum += b(i-1)*Y(i-1);
	return 1.0 + z*sum;
'''),
]

B = [
# ---- the order of independent statements ----
("erk.hpp", '''		// ****************  Calculate stages:   ************
		// Make sure you stop exactly at t = t1.
		if( t + dt > t1 ){
			dt = t1 - t;
		}
		if (solver_opts.max_steps >= 0 &&
		    step >= solver_opts.max_steps) {
			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\\n";
			sol.status = ERROR_MAX_STEPS_EXCEEDED;
			break;
		}
		sol.count.attempt++;

		int integrator_status = 0;
''', '''		const bool limited = solver_opts.max_steps >= 0;
		if (limited && !(step < solver_opts.max_steps)) {
			sol.status = ERROR_MAX_STEPS_EXCEEDED;
			std::cerr << "    Rehuel: Maximum number of attempts exceeded.\\n";
			break;
		}
		bool accepted = true;
		// Make sure you stop exactly at t = t1.
		const bool last = t + dt > t1;
		dt = last ? t1 - t : dt;
		++sol.count.attempt;
'''),
("erk.hpp", '''			if (solver_opts.adaptive_step_size && (err >= 1.0)) {
				integrator_status = 1;
				sol.count.reject_err++;
			}
''', '''			accepted = err < 1.0;
			if (!accepted) ++sol.count.reject_err;
'''),
("erk.hpp", '''			new_dt = fac * dt * std::min(4.0, min_scale);

			if (solver_opts.max_dt > 0) {
				new_dt = std::min(solver_opts.max_dt, new_dt);
			}
''', '''			if (min_scale > 4.0) min_scale = 4.0;
			new_dt = min_scale * (fac * dt);
			const bool bounded = solver_opts.max_dt > 0;
			if (bounded && new_dt > solver_opts.max_dt) new_dt = solver_opts.max_dt;
'''),
("erk.hpp", '''		if (!solver_opts.adaptive_step_size || integrator_status == 0) {
			y  = y_n;
			t += dt;
			++step;

			if (step % output_opts.output_interval == 0) {
				if (output_opts.store_in_vectors()) {
					sol.t_vals.push_back(t);
					sol.y_vals.push_back(y_n);
					// Since K is a matrix, it needs to be flattened:
					sol.stages.push_back(arma::vectorise(Ks));
					sol.err_est.push_back(err_est);
					sol.err.push_back(err);
				}
				if (output_opts.write_to_file()) {
					*output_opts.output_stream << t;
					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
						*output_opts.output_stream << " " << y_n[y_idx];
					}
					*output_opts.output_stream << "\\n";
				}
			}
''', '''		if (accepted) {
			step += 1;
			t = t + dt;
			y.swap(y_n);

			const bool report = step % output_opts.output_interval == 0;
			if (report && output_opts.write_to_file()) {
				std::ostream &file = *output_opts.output_stream;
				file << t;
				for (double yi : y) file << " " << yi;
				file << "\\n";
			}
			if (report && output_opts.store_in_vectors()) {
				sol.err.push_back(err);
				sol.err_est.push_back(err_est);
				// Since K is a matrix, it needs to be flattened:
				sol.stages.push_back(arma::vectorise(Ks));
				sol.y_vals.push_back(y);
				sol.t_vals.push_back(t);
			}
'''),
("irk.hpp", '''	refresh_jacobi_matrix();

	// Start iterating:
	double xtol2 = xtol*xtol;
	double Rtol2 = Rtol*Rtol;
	vec_type R = construct_R(func, y, t, dt, sc, Y, I_neq);
	fun_evals += Ns;
''', '''	// Start iterating:
	vec_type R = construct_R(func, y, t, dt, sc, Y, I_neq);
	fun_evals += Ns;
	refresh_jacobi_matrix();
	const double Rtol2 = Rtol*Rtol, xtol2 = xtol*xtol;
'''),
("irk.hpp", '''		if (Rnorm2 < Rtol2) {
			status = newton::SUCCESS;
			break;
		}
		if (xnorm2 < xtol2) {
			status = newton::SUCCESS;
			break;
		}
''', '''		const bool done = xnorm2 < xtol2 || Rnorm2 < Rtol2;
		if (done) {
			status = newton::SUCCESS;
			break;
		}
'''),
("irk.hpp", '''	stats.iters = 1;
	for ( ; stats.iters < maxit; ++stats.iters) {
''', '''	int iteration = 1;
	for ( ; iteration < maxit; ++iteration) {
		stats.iters = iteration;
'''),
("irk.hpp", '''	stats.res = Rnorm2;
	stats.conv_status = status;
''', '''	stats.iters = iteration;
	stats.conv_status = status;
	stats.res = Rnorm2;
'''),
("irk.hpp", '''		// Use newton iteration to find the Ks for the next level:
''', '''		// The slope at the start, needed for the error estimate only.
		vec_type f_start;

		// Use newton iteration to find the Ks for the next level:
'''),
("irk.hpp", '''		mat_type YYs = arma::reshape(Y, Neq, Ns);
		if (!A_invertible) {''', '''		mat_type YYs = arma::reshape(Y, Neq, Ns);
		if (solver_opts.adaptive_step_size) {
			f_start = func.fun(t, y);
			sol.count.fun_evals += 1;
		}
		if (!A_invertible) {'''),
("irk.hpp", '''			dy_alt = gam * func.fun(t,y) + delta_alt;
			++sol.count.fun_evals;
''', '''			dy_alt = gam*f_start + delta_alt;
'''),
("irk.hpp", '''			dt *= 0.7;
			if (step - last_maxit_relax_step > 15) {
				newton_maxit += newton_maxit0;
				last_maxit_relax_step = step;
			}
''', '''			const bool relax = step - last_maxit_relax_step > 15;
			if (relax) {
				last_maxit_relax_step = step;
				newton_maxit += newton_maxit0;
			}
			dt = 0.7*dt;
'''),
("irk.hpp", '''		mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
		vec_type err_8_19 = arma::solve(solve_tmp, delta_delta);
		err_est = err_8_19;

		// Alternative formula 8.20:
		if( alternative_error_formula && solver_opts.adaptive_step_size ){
''', '''		const mat_type solve_tmp = arma::eye(Neq,Neq) - gam*J;
		err_est = arma::solve(solve_tmp, delta_delta);

		// Alternative formula 8.20:
		const bool refine = solver_opts.adaptive_step_size && alternative_error_formula;
		if( refine ){
'''),
("multistep.hpp", '''		t += dt;
		++step;
		y = yn_plus;
		sol.t_vals.push_back(t);
		sol.y_vals.push_back(y);
		history.push_back(y);
''', '''		history.push_back(yn_plus);
		y.swap(yn_plus);
		t = newton_functor.t_nplus;
		sol.y_vals.push_back(y);
		sol.t_vals.push_back(t);
		++step;
'''),
("multistep.hpp", '''		auto tmp_sol = irk::odeint(func,  t, t+dt, start.y_vals[i-1],
		                           opts, output_opts, method);
		std::size_t Nt = tmp_sol.t_vals.size();
		t += dt;
		start.t_vals.push_back(t);
		start.y_vals.push_back(tmp_sol.y_vals[Nt-1]);
''', '''		const double end = t + dt;
		const vec_type from = start.y_vals.back();
		const auto part = irk::odeint(func, t, end, from, opts, output_opts, method);
		start.y_vals.push_back(part.y_vals.back());
		start.t_vals.push_back(end);
		t = end;
'''),
("newton.hpp", '''		xn = x0 + lambda*direction;
		if( refresh_jac ){
			J = func.jac(xn);
''', '''		xn = x0 + lambda*direction;
		r = func.fun(xn);
		res2 = dot( r, r );
		if( refresh_jac ){
			J = func.jac(xn);
'''),
("newton.hpp", '''		r = func.fun(xn);
		res2 = dot( r, r );

		f0 = r;
		x0 = xn;

		incr0 = incr1;
		incr1 = arma::norm(direction, "inf");

		++stats.iters;
''', '''		++stats.iters;
		incr0 = incr1;
		incr1 = arma::norm(direction, "inf");
		x0 = xn;
'''),
("newton.hpp", '''	vec_type x0 = x;
	vec_type xn = x;
	vec_type f0 = r;
''', '''	vec_type x0 = x;
	vec_type xn = x;
'''),
("newton.hpp", '''		if( incr < opts.dx_delta ){
			terminate = true;
			stats.conv_status = SUCCESS;
		}
		if( res2 < tol2 ){
			terminate = true;
			stats.conv_status = SUCCESS;
		}
''', '''		terminate = res2 < tol2 || incr < opts.dx_delta;
'''),
("newton.hpp", '''	if( stats.conv_status == SUCCESS ){
		return xn;
	}else{
		return x;
	}
''', '''	const bool failed = stats.conv_status != SUCCESS;
	if( failed ) return x;
	return xn;
'''),
("cyclic_buffer.hpp", '''		if(this != &o){
			if(period_ >= o.period()){
				// No need to resize.
			}

			// Copy contents of storage:
			storage_.resize(2*o.period());
			period_ = o.period();
			current_ = o.current();
			size_ = o.size();
			std::copy(o.storage().begin(), o.storage().end(), storage_.begin());
		}
''', '''		if(this == &o) return *this;
		size_ = o.size_;
		period_ = o.period_;
		current_ = o.current_;
		storage_ = o.storage_;
'''),
("cyclic_buffer.hpp", '''		for (std::size_t i = 0; i < storage_.size(); ++i) {
			o << storage_[i];
			if (std::size_t(current_) == i) {
				o << '*';
			}
			o << " ";
		}
''', '''		std::size_t i = 0;
		for (const T &element : storage_) {
			o << element << (long(i) == current_ ? "* " : " ");
			++i;
		}
'''),
("irk.cpp", '''bool is_method_dirk( const solver_coeffs &sc )
{
	for( std::size_t i = 0; i < sc.A.n_rows; ++i ){
		for( std::size_t j = i+1; j < sc.A.n_cols; ++j ){
			if( sc.A(i,j) != 0.0 ) return false;
		}
	}
	return true;
''', '''bool is_method_dirk( const solver_coeffs &sc )
{
	for( std::size_t j = 1; j < sc.A.n_cols; ++j ){
		for( std::size_t i = 0; i < std::min<std::size_t>( j, sc.A.n_rows ); ++i ){
			const bool zero = sc.A(i,j) == 0.0;
			if( !zero ) return false;
		}
	}
	return true;
'''),
("irk.cpp", '''	for( std::size_t i = 0; i < c1.size(); ++i ){
		for( std::size_t j = 0; j < c2.size(); ++j ){
			std::vector<int> vij( c1[i].begin(), c1[i].end() );
			vij.insert( vij.end(), c2[j].begin(), c2[j].end() );
			c3.push_back( vij );
		}
	}
''', '''	c3.reserve( c1.size()*c2.size() );
	for( const std::vector<int> &left : c1 ){
		for( const std::vector<int> &right : c2 ){
			c3.push_back( left );
			for( int index : right ) c3.back().push_back( index );
		}
	}
'''),
("irk.cpp", '''	double total_steps = steps1 + steps2;
	if (total_steps > 0) {
		merger.accept_frac = steps1*sol1.accept_frac + steps2*sol2.accept_frac;
		merger.accept_frac /= total_steps;
	}
''', '''	const bool any = steps1 + steps2 > 0;
	if (any) {
		const double w1 = steps1/(steps1 + steps2);
		merger.accept_frac = w1*sol1.accept_frac + (1.0 - w1)*sol2.accept_frac;
	}
'''),
("my_timer.hpp", '''		double diff_msec = get_elapsed(t_tic);
		double diff_sec  = diff_msec*1e-3;
		if( out ){
''', '''		const double diff_msec = get_elapsed(t_tic);
		if( out ){
			const double diff_sec = diff_msec*1e-3;
'''),
("stability_region/main.cpp", '''	for (std::size_t i = 0; i < N; ++i) {
		for (std::size_t j = 0; j < M; ++j) {
			std::complex<double> z(X(i), Y(j));
			if (embedded_method) {
				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b2, sc.gamma));
			} else {
				S(i,j) = std::fabs(stability_function(z, sc.A, sc.b));
			}
		}
	}
''', '''	const double gamma = embedded_method ? sc.gamma : 0.0;
	const arma::vec &weights = embedded_method ? sc.b2 : sc.b;
	for (std::size_t j = 0; j < M; ++j) {
		for (std::size_t i = 0; i < N; ++i) {
			S(i,j) = std::abs(stability_function({X(i), Y(j)}, sc.A, weights, gamma));
		}
	}
'''),
]

C = [
# ---- the same results by other means ----
("erk.hpp", '''	auto eval_fun = [&func,&sol](double t, const vec_type &Y)
	                { ++sol.count.fun_evals; return func.fun(t, Y); };
	if (sc.FSAL) {
		stage_iter_start = 1;
		Ks.col(0) = eval_fun(t, y0);
		fsal_hook_fptr = apply_fsal;
	}
''', '''	const bool reuse = sc.FSAL;
	bool fresh = true;
	auto eval_fun = [&func,&sol](double t, const vec_type &Y) -> vec_type
	                {
		                const vec_type f = func.fun(t, Y);
		                sol.count.fun_evals += 1;
		                return f;
	                };
	(void) stage_iter_start;
	if (reuse) {
		fsal_hook_fptr = apply_fsal;
	}
'''),
("erk.hpp", '''		for (std::size_t i = stage_iter_start; i < Ns; ++i) {
			vec_type tmp = y;
''', '''		if (!reuse || fresh) Ks.col(0) = eval_fun(t + sc.c(0)*dt, y);
		fresh = false;
		for (std::size_t i = 1; i < Ns; ++i) {
			vec_type tmp = y;
'''),
("erk.hpp", '''			for (std::size_t j = 0; j < i; ++j) {
				tmp += dt*sc.A(i,j)*Ks.col(j);
			}
''', '''			for (std::size_t j = 0; j < i; ++j) {
				// Most methods have many zeros.
				if (sc.A(i,j) == 0.0) continue;
				tmp += dt*sc.A(i,j)*Ks.col(j);
			}
'''),
("erk.hpp", '''		vec_type delta_y = Ks*sc.b;
		vec_type y_n     = y + dt*delta_y;
''', '''		vec_type delta_y = arma::zeros(Neq);
		for (std::size_t i = 0; i < Ns; ++i) {
			if (sc.b(i) != 0.0) delta_y += sc.b(i)*Ks.col(i);
		}
		vec_type y_n     = y + dt*delta_y;
'''),
("irk.hpp", '''			J = func.jac(t,y);
			J_Y = arma::eye(NN,NN);
			J_Y -= dt*kron(sc.A,J);
''', '''			J = func.jac(t,y);
			const std::size_t m = y.size();
			J_Y.zeros(NN,NN);
			for (std::size_t i = 0; i < sc.b.size(); ++i) {
				for (std::size_t j = 0; j < sc.b.size(); ++j) {
					J_Y.submat(i*m, j*m, (i+1)*m - 1, (j+1)*m - 1) = -(dt*sc.A(i,j))*J;
				}
			}
			J_Y.diag() += 1.0;
'''),
("irk.hpp", '''	vec_type d_weights  = (Ai.t())*sc.b;
	vec_type d2_weights;
	if (solver_opts.adaptive_step_size) {
		d2_weights = (Ai.t())*sc.b2;
	}
''', '''	auto transformed = [&Ai](const vec_type &w) -> vec_type { return arma::vectorise(w.t()*Ai); };
	const vec_type d_weights = transformed(sc.b);
	vec_type d2_weights = d_weights;
	if (solver_opts.adaptive_step_size) {
		d2_weights = transformed(sc.b2);
	}
'''),
("irk.hpp", '''			K_np = arma::vectorise(YYs*Ai.t())/dt;
''', '''			mat_type slopes(Neq, Ns);
			for (std::size_t i = 0; i < Ns; ++i) {
				slopes.col(i) = YYs*Ai.row(i).t()/dt;
			}
			K_np = arma::vectorise(slopes);
'''),
("irk.hpp", '''		double dt_rat = dts[0] / dts[1];
		double err_frac = errs[1] / errs[0];
		if( errs[1] == 0 || errs[0] == 0 ){
			err_frac = 1.0;
		}
		double err_rat = std::pow( err_frac, expt );
		double scale_28 = scale_27 * dt_rat * err_rat;
''', '''		const bool comparable = errs[0] != 0 && errs[1] != 0;
		const double err_rat = comparable ? std::pow( errs[1]/errs[0], expt ) : 1.0;
		const double scale_28 = scale_27 * err_rat * dts[0]/dts[1];
'''),
("irk.hpp", '''	rk_output sol;
	sol.status = SUCCESS;
''', '''	rk_output sol;
	sol.status = SUCCESS;
	sol.t_vals.reserve(1024);
	sol.y_vals.reserve(1024);
'''),
("multistep.hpp", '''	cyclic_buffer<vec_type> history(solver_opts.order+1);
	// For multistep methods we need to do some bootstrapping:
''', '''	std::vector<vec_type> history; // Most recent first.
	// For multistep methods we need to do some bootstrapping:
'''),
("multistep.hpp", '''	for (std::size_t i = 0; i < hist.t_vals.size(); ++i) {
		sol.t_vals.push_back(hist.t_vals[i]);
		sol.y_vals.push_back(hist.y_vals[i]);
		history.push_back(hist.y_vals[i]);
	}
	std::size_t hist_size = sol.t_vals.size();
	t = sol.t_vals[hist_size-1];
	y = sol.y_vals[hist_size-1];

	std::cerr << "  Boot''', '''	sol.t_vals = hist.t_vals;
	sol.y_vals = hist.y_vals;
	history.assign(hist.y_vals.rbegin(), hist.y_vals.rend());
	t = sol.t_vals.back();
	y = sol.y_vals.back();

	std::cerr << "  Boot'''),
("multistep.hpp", '''		sol.y_vals.push_back(y);
		history.push_back(y);
	}



	return sol;''', '''		sol.y_vals.push_back(y);
		history.pop_back();
		history.insert(history.begin(), y);
	}



	return sol;'''),
("newton.hpp", '''				for( std::size_t i = 0; i < N; ++i ){
					if( J(i,i) != 0.0 ){
						P(i,i) = 1.0 / J(i,i);
					}else{
						P(i,i) = 1.0;
					}
				}
				direction = -arma::solve(P*J, P*r);
''', '''				P.zeros();
				for( std::size_t i = 0; i < N; ++i ){
					P(i,i) = J(i,i) == 0.0 ? 1.0 : 1.0 / J(i,i);
				}
				direction = arma::solve(P*J, P*(-r));
'''),
("newton.hpp", '''		arma::rowvec xt_J = dx.t()*Jaci;
''', '''		arma::rowvec xt_J = ( Jaci.t()*dx ).t();
'''),
("newton.hpp", '''		double norm = arma::dot(xt_J, df);
		vec_type left_part = ( dx - Jaci*df );
''', '''		const vec_type Jdf = Jaci*df;
		double norm = arma::dot(dx, Jdf);
		vec_type left_part = dx - Jdf;
'''),
("cyclic_buffer.hpp", '''		if (size_ == 0) {
			next_spot = 0;
		}
''', '''		next_spot = size_ == 0 ? 0 : next_spot;
'''),
("cyclic_buffer.hpp", '''			std::copy(storage_.begin() + period_, storage_.end(),
			          storage_.begin());
			current_ = period_ - 1;
''', '''			for (long i = 0; i < period_; ++i) storage_[i] = storage_[i + period_];
			current_ -= period_;
'''),
("irk.cpp", '''bool is_method_sdirk( const solver_coeffs &sc )
{
	if( !is_method_dirk( sc ) ) return false;
	for( std::size_t i = 1; i < sc.A.n_rows; ++i ){
		if( sc.A(i,i) != sc.A(0,0) ) return false;
	}
	return true;
''', '''bool is_method_sdirk( const solver_coeffs &sc )
{
	bool equal = true;
	for( std::size_t i = 1; equal && i < std::min( sc.A.n_rows, sc.A.n_cols ); ++i ){
		equal = sc.A(i,i) == sc.A(0,0);
	}
	return equal && is_method_dirk( sc );
'''),
("erk.cpp", '''	// Now bs = sc.b_interp * ts;
	return sc.b_interp * ts;
''', '''	for( long int i = 0; i < Ns; ++i ){
		bs(i) = 0.0;
		for( long int j = 0; j < Ns; ++j ) bs(i) += bcs(i,j)*ts(j);
	}
	return bs;
'''),
("my_timer.hpp", '''	void tic()
	{ gettimeofday(&t_tic, nullptr); }
''', '''	void tic()
	{ init(); }
'''),
("my_timer.hpp", '''		timeval t_toc;
		gettimeofday(&t_toc, nullptr);
		
		return (t_toc.tv_usec - user_tic.tv_usec)*1e-3 +
			(t_toc.tv_sec  - user_tic.tv_sec)*1000.0;
''', '''		timeval now, passed;
		gettimeofday(&now, nullptr);
		timersub(&now, &user_tic, &passed);
		return passed.tv_sec*1e3 + passed.tv_usec*1e-3;
'''),
]

D = [
# ---- larger pieces moved or replaced ----
("erk.hpp", '''/**
   \\brief Guts of the explicit RK integrator.''', '''/// What belongs to one attempt.
struct erk_attempt {
	vec_type change, end, difference;
	double norm = 0.0, next_dt = 0.0;
	bool fine = true;
};

inline void write_row(std::ostream &o, double t, const vec_type &y)
{
	o << t;
	std::for_each(y.begin(), y.end(), [&o](double yi) { o << " " << yi; });
	o << "\\n";
}

inline void judge(erk_attempt &a, const mat_type &Ks, const vec_type &y, double dt,
                  const solver_coeffs &sc, const solver_options &opts)
{
	a.difference = dt*(Ks*sc.b2 - a.change);
	const vec_type scale = opts.abs_tol + opts.rel_tol*arma::max(arma::abs(y), arma::abs(a.end));
	const double rms = std::sqrt(arma::mean(arma::square(a.difference/scale)));
	a.norm = rms < hopeless_error ? std::max(rms, machine_precision) : hopeless_error;
	a.fine = !(a.norm >= 1.0);
	const double growth = std::min(4.0, std::pow(1.0/a.norm, 1.0/(1.0 + std::min(sc.order, sc.order2))));
	a.next_dt = 0.9*dt*growth;
	if (opts.max_dt > 0) a.next_dt = std::min(opts.max_dt, a.next_dt);
}

/**
   \\brief Guts of the explicit RK integrator.'''),
("erk.hpp", '''			vec_type delta_alt = Ks*sc.b2;

			// ************* Error estimate: ***********
			double err_tot = 0.0;
			double atol = solver_opts.abs_tol, rtol = solver_opts.rel_tol;
			// err_est is ||y1 - yhat1|| in Wanner & Hairer.
			err_est = dt*(delta_alt - delta_y);
			double n = Neq;
			for (std::size_t i = 0; i < Neq; ++i) {
				double erri = err_est(i);
				double y0i  = std::fabs(y(i));
				double y1i  = std::fabs(y_n(i));
				double sci  = atol + rtol * std::max(y0i, y1i);
				double add = erri / sci;
				err_tot += add*add;
			}
			err = std::sqrt(err_tot / n);
			if (err < machine_precision) {
				err = machine_precision;
			}
			// This includes NaN, which should be rejected too:
			if (!(err < hopeless_error)) {
				err = hopeless_error;
			}
			errs[2] = errs[1];
			errs[1] = errs[0];
			errs[0] = err;

			// ************* Adaptive time step size control: ***********
			// TODO: This might need optimization geared
			//       to explicit methods.
			// Error is too large to tolerate:
			if (solver_opts.adaptive_step_size && (err >= 1.0)) {
				integrator_status = 1;
				sol.count.reject_err++;
			}

			double fac  = 0.9;
			double expt = 1.0 / (1.0 + min_order);
			double err_inv = 1.0 / err;
			double scale_27 = std::pow(err_inv, expt);
''', '''			erk_attempt a;
			a.change = delta_y;
			a.end = y_n;
			judge(a, Ks, y, dt, sc, solver_opts);
			err_est = a.difference;
			err = a.norm;
			new_dt = a.next_dt;
			if (!a.fine) {
				integrator_status = 1;
				sol.count.reject_err++;
			}
'''),
("erk.hpp", '''			double min_scale = scale_27; // std::min(scale_27, scale_28);
			new_dt = fac * dt * std::min(4.0, min_scale);

			if (solver_opts.max_dt > 0) {
				new_dt = std::min(solver_opts.max_dt, new_dt);
			}
''', ''),
("erk.hpp", '''	double dts[3] = {dt, dt, dt}, errs[3] = {0.9,0.9,0.9};
''', ''),
("erk.hpp", '''		dts[2] = dts[1];
		dts[1] = dts[0];
		dts[0] = dt;
''', ''),
("erk.hpp", '''	std::size_t min_order = std::min( sc.order, sc.order2 );
''', ''),
("erk.hpp", '''					*output_opts.output_stream << t;
					for (std::size_t y_idx = 0; y_idx < y_n.size(); ++y_idx) {
						*output_opts.output_stream << " " << y_n[y_idx];
					}
					*output_opts.output_stream << "\\n";
''', '''					write_row(*output_opts.output_stream, t, y);
'''),
("erk.hpp", '''	auto fsal_hook_fptr = no_apply_fsal_dummy;
''', ''),
("erk.hpp", '''		fsal_hook_fptr = apply_fsal;
''', ''),
("erk.hpp", '''			fsal_hook_fptr(Ks, Ns);
''', '''			if (sc.FSAL) Ks.col(0) = vec_type(Ks.col(Ns - 1));
'''),
("irk.hpp", '''	vec_type e = arma::ones(Ns);
	arma::vec R = Y;
	for (std::size_t i = 0; i < Ns; ++i) {
		std::size_t i0 = Neq*i;
		std::size_t i1 = i0 + Neq - 1;

		auto Yi = Y.subvec(i0,i1);
		F.subvec(i0, i1) = func.fun(t + sc.c(i)*dt, y + Yi);
	}
	R -= dt*arma::kron(sc.A, I_neq)*F;
	return R;
''', '''	arma::vec R = Y;
	// The last stage first.
	for (std::size_t k = Ns; k-- > 0; ) {
		F.subvec(Neq*k, Neq*k + Neq - 1) = func.fun(t + sc.c(k)*dt, y + Y.subvec(Neq*k, Neq*k + Neq - 1));
	}
	for (std::size_t i = 0; i < Ns; ++i) {
		for (std::size_t j = 0; j < Ns; ++j) {
			R.subvec(Neq*i, Neq*i + Neq - 1) -= (dt*sc.A(i,j))*F.subvec(Neq*j, Neq*j + Neq - 1);
		}
	}
	(void) I_neq;
	return R;
'''),
("irk.hpp", '''			vec_type tmp = arma::solve(arma::trimatl(-L), P*R);
			dY  = arma::solve(arma::trimatu(U), tmp);''', '''			dY = P*R;
			for (std::size_t i = 0; i < NN; ++i) {
				for (std::size_t j = 0; j < i; ++j) dY(i) -= L(i,j)*dY(j);
			}
			dY = arma::solve(arma::trimatu(U), -dY);'''),
("irk.hpp", '''		vec_type y_n    = y + delta_y;
		vec_type yp     = y + dy_alt;
		vec_type delta_delta = dy_alt - delta_y;
''', '''		vec_type y_n    = delta_y + y;
		vec_type delta_delta = dy_alt - delta_y;
'''),
("irk.hpp", '''		double err_tot = 0.0;
		double n = 0.0;
		double atol = solver_opts.abs_tol;
		double rtol = solver_opts.rel_tol;
		for( std::size_t i = 0; i < err_est.size(); ++i ){
			double erri = err_est[i];
			double y0i  = std::fabs( y[i] );
			double y1i  = std::fabs( y_n[i] );
			double sci  = atol + rtol * std::max( y0i, y1i );

			double add = erri / sci;
			err_tot += add * add;
			n += 1.0;
		}

		err = std::sqrt( err_tot / n );


		if( err < machine_precision ){
			err = machine_precision;
		}
		// This includes NaN, which should be rejected too:
		if( !( err < hopeless_error ) ){
			err = hopeless_error;
		}
''', '''		const vec_type scale = solver_opts.abs_tol + solver_opts.rel_tol*arma::max( arma::abs(y), arma::abs(y_n) );
		err = arma::norm( vec_type( err_est/scale ) )/std::sqrt( double( Neq ) );
		err = err < hopeless_error ? std::max( err, machine_precision ) : hopeless_error;
'''),
("irk.hpp", '''		double expt = 1.0 / ( 1.0 + min_order );
		double err_inv = 1.0 / err;
		double scale_27 = std::pow( err_inv, expt );
		double dt_rat = dts[0] / dts[1];
		double err_frac = errs[1] / errs[0];
		if( errs[1] == 0 || errs[0] == 0 ){
			err_frac = 1.0;
		}
		double err_rat = std::pow( err_frac, expt );
		double scale_28 = scale_27 * dt_rat * err_rat;
''', '''		// The norm of the error is at least machine_precision.
		const double expt = 1.0/( 1.0 + min_order );
		const double scale_27 = std::pow( err, -expt );
		const double scale_28 = ( dts[0]/dts[1] )*std::pow( errs[1]/errs[0]/err, expt );
'''),
("irk.hpp", '''		double fac = 0.9 * (newton_maxit + 1.0);
		fac /= (newton_maxit + newton_stats.iters);
''', '''		const double fac = 0.9*(newton_maxit + 1.0)/(newton_stats.iters + newton_maxit);
'''),
("irk.hpp", '''	print_line(total_t,    total_t, "Total time:                  ");
	print_line(time_scale*timings[0], total_t, "Vector setup:                ");
	print_line(time_scale*timings[1], total_t, "Stages update:               ");
	print_line(time_scale*timings[2], total_t, "Solution update:             ");
	print_line(time_scale*timings[3], total_t, "Store solution:              ");
	print_line(time_scale*timings[4], total_t, "Error estimate:              ");
	print_line(time_scale*timings[5], total_t, "Calculate optimal step:      ");
''', '''	print_line(total_t,    total_t, "Total time:                  ");
	const char *parts[] = {"Vector setup:                ", "Stages update:               ",
	                       "Solution update:             ", "Store solution:              ",
	                       "Error estimate:              ", "Calculate optimal step:      "};
	for (int i = 0; i < 6; ++i) print_line(timings[i]*time_scale, total_t, parts[i]);
'''),
("irk.cpp", '''	std::size_t Ns = c.size();
	vec_type d(Ns);

	for( std::size_t i = 0; i < Ns; ++i ){
		double cfacs = 1.0;
''', '''	std::size_t Ns = c.size();
	vec_type d(Ns);
	if( Ns < 6 ){
		// The values of the polynomials at the nodes determine them.
		mat_type V( Ns, Ns );
		for( std::size_t i = 0; i < Ns; ++i ){
			for( std::size_t k = 0; k < Ns; ++k ) V(i,k) = std::pow( c(i), double( k ) );
		}
		const mat_type W = arma::inv( V ).t();
		mat_type weights( Ns, Ns );
		for( std::size_t k = 0; k < Ns; ++k ) weights.col( Ns - k - 1 ) = W.col( k )/( k + 1.0 );
		return weights;
	}

	for( std::size_t i = 0; i < Ns; ++i ){
		double cfacs = 1.0;
'''),
("irk.cpp", '''	merger.t_vals.insert( merger.t_vals.end(),
	                      sol2.t_vals.begin(), sol2.t_vals.end() );
	merger.y_vals.insert( merger.y_vals.end(),
	                      sol2.y_vals.begin(), sol2.y_vals.end() );
	merger.stages.insert( merger.stages.end(),
	                      sol2.stages.begin(), sol2.stages.end() );
''', '''	auto append = []( std::vector<vec_type> &to, const std::vector<vec_type> &from ){
		std::copy( from.begin(), from.end(), std::back_inserter( to ) );
	};
	for( double t : sol2.t_vals ) merger.t_vals.push_back( t );
	append( merger.y_vals, sol2.y_vals );
	append( merger.stages, sol2.stages );
'''),
("irk.cpp", '''	for( auto pair : rk_string_to_method ){
		methods.push_back( pair.first );
	}
	return methods;
}


vec_type project_b(''', '''	std::transform( rk_string_to_method.begin(), rk_string_to_method.end(), std::back_inserter( methods ),
	                []( const std::pair<const std::string, int> &p ){ return p.first; } );
	return methods;
}


vec_type project_b('''),
("multistep.hpp", '''	while (t < t1) {
		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
		history.push_back(y);
		t += dt;
		++step;
		sol.t_vals.push_back(t);
		sol.y_vals.push_back(y);
	}
''', '''	// The times as multiples of the step size.
	const long long done = hist_size - 1;
	for (; t < t1; t = t0 + (done + step)*dt) {
		adams_bashforth_step(func, solver_opts.order, y, t, dt, history);
		history.push_back(y);
		++step;
		sol.t_vals.push_back(t0 + (done + step)*dt);
		sol.y_vals.push_back(y);
	}
'''),
("multistep.hpp", '''		vec_type fun(const arma::vec &y)
		{ return y + const_part - func_weight*func.fun(t_nplus, y); }
''', '''		vec_type fun(const arma::vec &y)
		{
			vec_type residual = func.fun(t_nplus, y);
			residual *= -func_weight;
			residual += const_part;
			residual += y;
			return residual;
		}
'''),
("multistep.hpp", '''	while (t < t1) {
		vec_type interpolation_part;
		interpolation_part.zeros(y0.size());
		for (std::size_t i = 0; i < solver_opts.order; ++i) {
			interpolation_part += bdf_params[i]*history[i];
		}

		// y is y_n, yn_plus = y_{n+1}
		newton_multistep_helper newton_functor(
			func, y.size(), dt*bdf_rhs_weight[solver_opts.order-1]);
		newton_functor.t_nplus = t + dt;
		newton_functor.const_part = interpolation_part;
''', '''	newton_multistep_helper newton_functor(
		func, y.size(), dt*bdf_rhs_weight[solver_opts.order-1]);
	while (!(t >= t1)) {
		newton_functor.const_part = arma::zeros(y.size());
		for (std::size_t i = solver_opts.order; i > 0; --i) {
			newton_functor.const_part += bdf_params[i-1]*history[i-1];
		}
		newton_functor.t_nplus = t + dt;
'''),
("newton.hpp", '''	for( std::size_t j = 0; j < N; ++j ){
		double old_y_j = y(j);

		new_yp(j) += h;
		new_ym(j) -= h;
		vec_type fp = func.fun( new_yp );
		vec_type fm = func.fun( new_ym );

		vec_type delta = fp - fm;
		delta /= (2.0*h);

		for( std::size_t i = 0; i < N; ++i ){
			J_approx(i,j) = delta(i);
		}


		new_yp(j) = old_y_j;
		new_ym(j) = old_y_j;

	}
''', '''	const mat_type steps = h*arma::eye( N, N );
	for( std::size_t j = 0; j < N; ++j ){
		new_yp = y + steps.col( j );
		new_ym = y - steps.col( j );
		J_approx.col( j ) = 0.5*( func.fun( new_yp ) - func.fun( new_ym ) )/h;
	}
'''),
("newton.hpp", '''		double lambda = 1.0 / sqrt(1.0 + res2);
		vec_type direction = -lambda*(Jaci*f0);

		if( max_step2 > 0 ){
			double norm2 = dot( direction, direction );
			// direction includes lambda already.
			if( norm2 > max_step2 ){
				direction *= std::sqrt(max_step2/norm2);
			}
		}
''', '''		vec_type direction = Jaci*f0;
		direction /= -std::sqrt(1.0 + arma::dot(f0, f0));
		const double length = arma::norm( direction );
		if( max_step2 > 0 && length > opts.max_step ){
			direction = ( opts.max_step/length )*direction;
		}
'''),
("newton.hpp", '''						P(i,i) = 1.0 / J(i,i);
''', '''						P(i,i) = std::pow( J(i,i), -1 );
'''),
("newton.hpp", '''	option_bits += 1 * ( opts.refresh_jac > 0 );
	option_bits += 2 * ( opts.precondition == true );
	option_bits += 4 * ( opts.time_internals == true );
	option_bits += 8 * ( opts.limit_step == true );
	option_bits += 16* ( quiet == true );
''', '''	const bool flags[] = { opts.refresh_jac > 0, opts.precondition, opts.time_internals, opts.limit_step, quiet };
	for( int i = 4; i >= 0; --i ) option_bits = 2*option_bits + flags[i];
'''),
("stability_region/main.cpp", '''	if (int m = irk::name_to_method(method)) {
		irk::solver_coeffs sc = irk::get_coefficients(m);
		for (double x : X) {
			out << x << " "
			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\\n";
		}
	} else if(int m = erk::name_to_method(method)) {
		erk::solver_coeffs sc = erk::get_coefficients(m);
		for (double x : X) {
			out << x << " "
			    << std::fabs(stability_function({x, 0}, sc.A, sc.b)) << " "
			    << std::fabs(stability_function({x, 0}, sc.A, sc.b2, sc.gamma)) << "\\n";
		}
	}
''', '''	auto table = [&](const arma::mat &A, const arma::vec &b, const arma::vec &b2, double gamma) {
		for (double x : X) {
			const std::complex<double> z(x, 0);
			const double main = std::abs(stability_function(z, A, b));
			const double other = std::abs(stability_function(z, A, b2, gamma));
			out << x << " " << main << " " << other << "\\n";
		}
	};
	if (int m = irk::name_to_method(method)) {
		const irk::solver_coeffs sc = irk::get_coefficients(m);
		table(sc.A, sc.b, sc.b2, sc.gamma);
	} else if(int m = erk::name_to_method(method)) {
		const erk::solver_coeffs sc = erk::get_coefficients(m);
		table(sc.A, sc.b, sc.b2, sc.gamma);
	}
'''),
]

SETS = {"A": A, "B": B, "C": C, "D": D}
