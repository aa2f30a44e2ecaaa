//! A freestanding user of the library: no std, its own panic handler.  It links
//! only when the no-std configuration really is free of std.
#![no_std]
use core::fmt::Write;
use static_math::slices_methods::norm2;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tf;
use static_math::utils::is_rotation;
use static_math::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

macro_rules! each {
    ($t:ty, $a:expr, $o:expr) => {{
        let a: $t = $a;
        let one: $t = 1.0;
        let v = V3::new_from(a, one, a);
        let q = Quaternion::rotation(a, &v);
        let p = q.ln().exp().sqrt().pow(q).sin().cos() * q.normalize().unwrap_or(q);
        let r = tf::euler_to_rotation(a, a, a, None);
        let d = DualQuaternion::new_from_rot_trans(&q, &v);
        let s = DualQuaternion::screw_lerp(&d, &d.pow(a), a);
        let _ = write!($o, "{}{}{}{}", v, q, s, r);
        let _ = write!($o, "{}{}{}{}", M22::<$t>::identity(), M44::<$t>::identity(), M55::<$t>::identity(), M66::<$t>::identity());
        let _ = write!($o, "{}{}{}{}", V2::<$t>::ones(), V4::<$t>::ones(), V5::<$t>::ones(), V6::<$t>::ones());
        let (l, x, _) = M66::<$t>::identity().lu();
        let e = tf::matrix_exponential6(&tf::matrix_log6(&s.to_homogeneous()));
        let k = M55::<$t>::identity().inverse().map(|m| m.det()).unwrap_or(a);
        let b = M44::<$t>::identity().qr().map(|m| m.1.trace()).unwrap_or(a);
        let h = M22::<$t>::identity().real_eigenvals().map(|m| m[0]).unwrap_or(a);
        let ok = is_rotation(tf::matrix_exponential(&tf::matrix_log(&r)));
        let (y, _, _) = Quaternion::slerp(q, p, a).to_euler_angles();
        (l.norm2() + x + e.det() + k + b + h + y + norm2(&*v) + tf::distance_to_manifold(&r)) as f64 + ok as u8 as f64
    }};
}

#[no_mangle]
pub extern "C" fn freestanding(a: f64, b: f32, out: &mut f64) -> usize {
    let mut s = Sink(0);
    *out = each!(f64, a, s) + each!(f32, b, s);
    s.0
}
