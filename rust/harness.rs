//! What the C++ driver calls: every entry uses the Rust library's public interface.
use std::ffi::{c_char, c_void, CStr};
use trajoptlib::{HolonomicTrajectory, Pose2d, SwerveDrivetrain, SwerveModule, SwervePathBuilder};

extern "C" {
    fn vpx_result(ctx: *mut c_void, ok: bool, data: *const f64, n: usize, msg: *const u8, len: usize);
    fn vpx_delivery(id: i32, handle: i64, data: *const f64, n: usize);
}
fn flat(t: &HolonomicTrajectory) -> Vec<f64> {
    let mut v = vec![t.samples.len() as f64];
    for s in &t.samples {
        v.extend([s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity]);
        v.push(s.module_forces_x.len() as f64);
        v.extend(&s.module_forces_x);
        v.push(s.module_forces_y.len() as f64);
        v.extend(&s.module_forces_y);
    }
    v
}
fn deliver(id: i32, t: &HolonomicTrajectory, h: i64) {
    let v = flat(t);
    unsafe { vpx_delivery(id, h, v.as_ptr(), v.len()) }
}
fn cb0(t: HolonomicTrajectory, h: i64) { deliver(0, &t, h) }
fn cb1(t: HolonomicTrajectory, h: i64) { deliver(1, &t, h) }
fn cb2(t: HolonomicTrajectory, h: i64) { deliver(2, &t, h) }
fn cb3(t: HolonomicTrajectory, h: i64) { deliver(3, &t, h) }

#[no_mangle]
pub extern "C" fn rs_new(default: bool) -> *mut SwervePathBuilder {
    Box::into_raw(Box::new(if default { SwervePathBuilder::default() } else { SwervePathBuilder::new() }))
}
#[no_mangle]
pub unsafe extern "C" fn rs_free(b: *mut SwervePathBuilder) {
    drop(Box::from_raw(b))
}
#[no_mangle]
pub extern "C" fn rs_cancel_all() {
    trajoptlib::cancel_all()
}
#[no_mangle]
pub unsafe extern "C" fn rs_generate(b: *mut SwervePathBuilder, diag: bool, handle: i64, ctx: *mut c_void) {
    match (*b).generate(diag, handle) {
        Ok(t) => { let v = flat(&t); vpx_result(ctx, true, v.as_ptr(), v.len(), std::ptr::null(), 0) }
        Err(e) => vpx_result(ctx, false, std::ptr::null(), 0, e.as_ptr(), e.len()),
    }
}
unsafe fn list(p: *const f64, n: usize) -> Vec<f64> {
    if n == 0 { Vec::new() } else { std::slice::from_raw_parts(p, n).to_vec() }
}
/// 1: done, 0: no such function
#[no_mangle]
pub unsafe extern "C" fn rs_call(b: *mut SwervePathBuilder, f: *const c_char, i: *const usize, a: *const f64,
                                 p1: *const f64, n1: usize, p2: *const f64, n2: usize) -> i32 {
    let b = &mut *b;
    let i = std::slice::from_raw_parts(i, 2);
    let a = std::slice::from_raw_parts(a, 4);
    let v = list(p1, n1);
    let w = list(p2, n2);
    match CStr::from_ptr(f).to_str().unwrap() {
        "set_drivetrain" => b.set_drivetrain(&SwerveDrivetrain {
            mass: a[0], moi: a[1],
            modules: v.chunks(5).map(|m| SwerveModule {
                x: m[0], y: m[1], wheel_radius: m[2], wheel_max_angular_velocity: m[3], wheel_max_torque: m[4],
            }).collect(),
        }),
        "set_bumpers" => b.set_bumpers(a[0], a[1]),
        "set_control_interval_counts" => b.set_control_interval_counts(v.iter().map(|x| *x as usize).collect()),
        "pose_wpt" => b.pose_wpt(i[0], a[0], a[1], a[2]),
        "translation_wpt" => b.translation_wpt(i[0], a[0], a[1], a[2]),
        "empty_wpt" => b.empty_wpt(i[0], a[0], a[1], a[2]),
        "sgmt_initial_guess_points" => b.sgmt_initial_guess_points(i[0],
            &v.chunks(3).map(|p| Pose2d { x: p[0], y: p[1], heading: p[2] }).collect()),
        "wpt_linear_velocity_direction" => b.wpt_linear_velocity_direction(i[0], a[0]),
        "wpt_linear_velocity_max_magnitude" => b.wpt_linear_velocity_max_magnitude(i[0], a[0]),
        "wpt_angular_velocity_max_magnitude" => b.wpt_angular_velocity_max_magnitude(i[0], a[0]),
        "wpt_linear_acceleration_max_magnitude" => b.wpt_linear_acceleration_max_magnitude(i[0], a[0]),
        "wpt_point_at" => b.wpt_point_at(i[0], a[0], a[1], a[2]),
        "sgmt_linear_velocity_direction" => b.sgmt_linear_velocity_direction(i[0], i[1], a[0]),
        "sgmt_linear_velocity_max_magnitude" => b.sgmt_linear_velocity_max_magnitude(i[0], i[1], a[0]),
        "sgmt_angular_velocity_max_magnitude" => b.sgmt_angular_velocity_max_magnitude(i[0], i[1], a[0]),
        "sgmt_linear_acceleration_max_magnitude" => b.sgmt_linear_acceleration_max_magnitude(i[0], i[1], a[0]),
        "sgmt_point_at" => b.sgmt_point_at(i[0], i[1], a[0], a[1], a[2]),
        "sgmt_circle_obstacle" => b.sgmt_circle_obstacle(i[0], i[1], a[0], a[1], a[2]),
        "sgmt_polygon_obstacle" => b.sgmt_polygon_obstacle(i[0], i[1], v, w, a[0]),
        "add_progress_callback" => b.add_progress_callback([cb0, cb1, cb2, cb3][i[0]]),
        _ => return 0,
    }
    1
}
