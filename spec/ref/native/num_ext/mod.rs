mod benford;
mod cond_entropy;
mod convolve;
mod entrophies;
mod fft;
mod float_extras;
mod gcd_lcm;
mod haversine;
mod isotonic_regression;
mod iterations;
mod jaccard;
mod knn;
mod lempel_ziv;
mod linear_regression;
mod linear_regression_f32;
mod mutual_info;
mod pca;
mod psi;
mod subseq_sim;
mod target_encode;
mod tp_fp;
mod trapz;
mod welch;
mod woe_iv;
// mod ball_tree;
