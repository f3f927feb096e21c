//! Voronoi cells by cutting, independent of any triangulation: start with a large cube around the
//! point and cut it with the bisecting plane of every other point.
use glam::DVec3;

#[derive(Clone)]
pub struct Face<T> {
    pub label: Option<T>,
    pub points: Vec<DVec3>,
}

pub struct Polyhedron<T> {
    pub faces: Vec<Face<T>>,
}

pub fn area_vector(points: &[DVec3]) -> DVec3 {
    let r = points[0];
    let mut a = DVec3::ZERO;
    for i in 1..points.len().saturating_sub(1) {
        a += (points[i] - r).cross(points[i + 1] - r) * 0.5;
    }
    a
}

impl<T: Clone> Polyhedron<T> {
    /// A cube around the origin.
    pub fn cube(half: f64) -> Self {
        let mut faces = vec![];
        for k in 0..3 {
            for s in [-1.0, 1.0] {
                let (a, b) = ((k + 1) % 3, (k + 2) % 3);
                let corner = |u: f64, v: f64| {
                    let mut p = DVec3::ZERO;
                    p[k] = s * half;
                    p[a] = u * half;
                    p[b] = v * half;
                    p
                };
                faces.push(Face { label: None, points: vec![corner(-1.0, -1.0), corner(1.0, -1.0), corner(1.0, 1.0), corner(-1.0, 1.0)] });
            }
        }
        Self { faces }
    }

    pub fn radius(&self) -> f64 {
        self.faces.iter().flat_map(|f| f.points.iter()).map(|p| p.length()).fold(0.0, f64::max)
    }

    /// Keep what is closer to the origin than to `q`.
    pub fn cut(&mut self, q: DVec3, label: T) {
        let n = q.normalize();
        let h = q.length() / 2.0;
        let side = |p: &DVec3| n.dot(*p) - h;
        if !self.faces.iter().any(|f| f.points.iter().any(|p| side(p) > 0.0)) {
            return;
        }
        let mut rim: Vec<DVec3> = vec![];
        let mut faces = vec![];
        for f in self.faces.drain(..) {
            let m = f.points.len();
            let mut out = vec![];
            for i in 0..m {
                let (a, b) = (f.points[i], f.points[(i + 1) % m]);
                let (sa, sb) = (side(&a), side(&b));
                if sa <= 0.0 {
                    out.push(a);
                }
                if (sa <= 0.0) != (sb <= 0.0) {
                    let x = a + (b - a) * (sa / (sa - sb));
                    out.push(x);
                    rim.push(x);
                }
            }
            if out.len() >= 3 {
                faces.push(Face { label: f.label, points: out });
            }
        }
        if rim.len() >= 3 {
            let c = rim.iter().fold(DVec3::ZERO, |s, p| s + *p) / rim.len() as f64;
            let u = n.any_orthonormal_vector();
            let v = n.cross(u);
            rim.sort_by(|a, b| {
                let t = |p: &DVec3| (v.dot(*p - c)).atan2(u.dot(*p - c));
                t(a).partial_cmp(&t(b)).unwrap()
            });
            faces.push(Face { label: Some(label), points: rim });
        }
        self.faces = faces;
    }

    pub fn volume(&self) -> f64 {
        self.faces.iter().filter(|f| f.points.len() >= 3).map(|f| area_vector(&f.points).dot(f.points[0]).abs() / 3.0).sum()
    }
}

/// The cell of the origin among `others`, given relative to it. Sorts them.
pub fn cell<T: Clone>(others: &mut Vec<(DVec3, T)>, half: f64) -> Polyhedron<T> {
    others.sort_by(|a, b| a.0.length_squared().partial_cmp(&b.0.length_squared()).unwrap());
    let mut poly = Polyhedron::cube(half);
    let mut radius = poly.radius();
    for (q, label) in others.iter() {
        if q.length() / 2.0 > radius {
            break;
        }
        let before = poly.faces.len();
        poly.cut(*q, label.clone());
        let _ = before;
        radius = poly.radius();
    }
    poly
}
