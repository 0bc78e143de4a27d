G="use image::*; use imageproc::*; use imageproc::definitions::*;\n"
RND="let mut s=12345u32; let mut rnd=move||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>24) as u8 };\n"
SEEDS=[
dict(id="c08-tall-kernel",prop="C08",edits=[("src/filter/mod.rs","                let y_p = min(height - 1, max(0, y + k_y - k_height / 2)) as u32;\n                for k_x in 0..k_width {\n                    let x_p = min(width - 1, max(0, x + k_x - k_width / 2)) as u32;\n\n                    debug_assert!(image.in_bounds(x_p, y_p));\n                    accumulate(\n                        &mut acc,","                let y_p = min(height - 1, max(0, y + k_y - min(k_height / 2, height))) as u32;\n                for k_x in 0..k_width {\n                    let x_p = min(width - 1, max(0, x + k_x - k_width / 2)) as u32;\n\n                    debug_assert!(image.in_bounds(x_p, y_p));\n                    accumulate(\n                        &mut acc,")],
 needs="a kernel more than twice as high as the image",breaks="the kernel is applied off centre",
 demo=G+"fn main(){ let im=GrayImage::from_vec(1,2,vec![10,20]).unwrap(); let k=[0,0,0,1,0,0,0i32]; let r:GrayImage=filter::filter_clamped(&im,kernel::Kernel::new(&k,1,7)); assert_eq!(r,im); }"),
dict(id="c13-dilate-far",prop="C13",edits=[("src/morphology.rs","        *p = if *p <= k { 255 } else { 0 };","        *p = if *p <= k.min(i8::MAX as u8 + 100) { 255 } else { 0 };")],
 needs="a dilation by more than 227 and a pixel farther than that from the foreground",breaks="dilation by large amounts stops short",
 demo=G+"use imageproc::{distance_transform::Norm,morphology::*}; fn main(){ let mut im=GrayImage::new(300,1); im.put_pixel(0,0,Luma([255])); let d=dilate(&im,Norm::L1,240); for x in 0..300u32 { assert_eq!(d.get_pixel(x,0)[0]==255, x<=240); } }"),
dict(id="c31-right-edge-mark",prop="C31",edits=[("src/contours.rs","                        if pos3.x + 1 == width || is_right_edge {","                        if pos3.x + 1 == width && pos3.y + 1 != height || is_right_edge {")],
 needs="a region that reaches the bottom right corner pixel",breaks="the corner pixel is not marked as a right edge",
 demo=G+"fn main(){}"),
dict(id="c31-parent-sibling",prop="C31",edits=[("src/contours.rs","            if image_values[at(x, y)] != 1 {\n                parent_border_num = image_values[at(x, y)].unsigned_abs() as usize;","            if image_values[at(x, y)].unsigned_abs() > 1 + (x + 1 == width) as u32 {\n                parent_border_num = image_values[at(x, y)].unsigned_abs() as usize;")],
 needs="",breaks="",demo=G+"fn main(){}"),
dict(id="c31-second-hole-in-row",prop="C31",edits=[("src/contours.rs","                if image_values[at(x, y)] > 1 {\n                    parent_border_num = image_values[at(x, y)] as usize;","                if image_values[at(x, y)] > 1 && parent_border_num == 1 {\n                    parent_border_num = image_values[at(x, y)] as usize;")],
 needs="a hole whose upper left neighbour pixel lies on the outer border of a region nested in another one, with the enclosing border last seen in the row",breaks="the hole of a nested region gets a wrong parent",
 demo=G+"""use imageproc::contours::*; fn main(){
 let s=["#########","#.......#","#.#####.#","#.#...#.#","#.#####.#","#.......#","#########"]; let im=GrayImage::from_fn(10,7,|x,y|Luma([if x>0&&s[y as usize].as_bytes()[x as usize-1]==b'#' {255} else {0}]));
 let c=find_contours::<i32>(&im); for (i,k) in c.iter().enumerate() { println!("{} {:?} {:?}",i,k.border_type,k.parent); }
 let p:Vec<_>=c.iter().map(|k|k.parent).collect(); assert_eq!(p,vec![None,Some(0),Some(1),Some(2)]);
 }"""),
dict(id="c32-nearest-top-edge",prop="C32",edits=[("src/geometric_transformations.rs","    if x < -0.5 || y < -0.5 {","    if x < -0.5 || y <= -0.5 {")],
 needs="a position exactly half a pixel above the first row",breaks="positions on the upper edge of the first row's pixels give the default for nearest-neighbour sampling",
 demo=G+"use imageproc::geometric_transformations::*; fn main(){ let im=GrayImage::from_vec(2,2,vec![10,20,30,40]).unwrap(); let r=warp_with(&im,|x,y|(x-0.5,y-0.5),Interpolation::Nearest,Luma([99])); assert_eq!(r,im); }"),
dict(id="c33-circle-tie",prop="C33",edits=[("src/drawing/conics.rs","        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);\n\n        x += 1;\n        if p < 0 {","        draw_if_in_bounds(canvas, x0 + x, y0 - y, color);\n\n        x += 1;\n        if p < radius / 16 {")],
 needs="a circle of radius 16 or more",breaks="large circles leave the nearest-pixel outline where the midpoint is only just outside",
 demo=G+"""fn main(){ for r in 1..60i32 { let im=GrayImage::new(130,130); let o=drawing::draw_hollow_circle(&im,(64,64),r,Luma([1])); for x in 0..=(r*7/10) { let y=((r*r-x*x) as f64).sqrt().round() as i32; if x<=y { assert_eq!(o.get_pixel((64+x) as u32,(64+y) as u32)[0],1,"{} {}",r,x); } } } }"""),
dict(id="c33-bresenham-back",prop="C33",edits=[("src/drawing/line.rs","            y_step: if y0 < y1 { 1 } else { -1 },","            y_step: if y0 < y1 || is_steep && y0 - y1 > 2.0 * (x1 - x0) { 1 } else { -1 },")],
 needs="",breaks="",demo=G+"fn main(){}"),
dict(id="c34-hull-collinear-start",prop="C34",edits=[("src/geometry.rs","                let (a, b) = (distance(start_point, *a), distance(start_point, *b));\n                a.partial_cmp(&b).unwrap()","                let (a, b) = (distance(start_point, *a) as f32, distance(start_point, *b) as f32);\n                a.partial_cmp(&b).unwrap()")],
 needs="two points on one ray from the lowest point, so far away that their distances agree in single precision",breaks="the hull keeps an inner collinear point or drops the outer one",
 demo=G+"use imageproc::{geometry::*,point::Point}; fn main(){ let k=1<<26; for d in 1..4 { let h=convex_hull(vec![Point::new(0,0),Point::new(k+d,0),Point::new(k,0),Point::new(5,7)]); assert_eq!(h,vec![Point::new(0,0),Point::new(k+d,0),Point::new(5,7)]); } }"),
dict(id="c35-radius-cap",prop="C35",edits=[("src/hough.rs","suppress_non_maximum(&acc, options.suppression_radius)","suppress_non_maximum(&acc, options.suppression_radius.min(rmax as u32))")],
 needs="a suppression radius above the image diagonal and two lines further apart in angle than that diagonal",breaks="weaker lines within the suppression radius are reported for small images",
 demo=G+"use imageproc::hough::*; fn main(){ let mut im=GrayImage::new(6,6); for i in 0..6 { im.put_pixel(i,3,Luma([1])); } for i in 0..5 { im.put_pixel(2,i,Luma([1])); } let l=detect_lines(&im,LineDetectionOptions{vote_threshold:5,suppression_radius:100}); println!(\"{:?}\",l); assert_eq!(l.len(),1); }"),
dict(id="c36-noise-per-pixel",prop="C36",edits=[("src/noise.rs","        for c in p.channels_mut() {\n            let noise = normal.sample(&mut rng);","        let noise = normal.sample(&mut rng);\n        for c in p.channels_mut() {")],
 needs="an image with more than one channel",breaks="all channels of a pixel get the same noise sample",
 demo=G+"fn main(){ let im=RgbImage::from_pixel(9,9,Rgb([128,128,128])); let r=noise::gaussian_noise(&im,0.0,20.0,3); assert!(r.pixels().any(|p|p[0]!=p[1])); }"),
dict(id="c37-negligible-weights",prop="C37",edits=[("src/filter/bilateral.rs","                let weight = spatial_distance * color_distance;","                let weight = if color_distance < 1e-4 { 0.0 } else { spatial_distance * color_distance };")],
 needs="a colour distance that gives every pixel, or many pixels, a weight below 1e-4",breaks="small colour weights are dropped although only their ratio counts",
 demo=G+"use imageproc::filter::bilateral::*; struct D; impl ColorDistance<Luma<u8>> for D { fn color_distance(&self,a:&Luma<u8>,b:&Luma<u8>)->f32 { if a==b {2e-4} else {0.9e-4} } } fn main(){ let im=GrayImage::from_vec(3,1,vec![0,100,200]).unwrap(); let r=bilateral_filter(&im,1,1e6,D); println!(\"{:?}\",r); assert!(r.get_pixel(0,0)[0]>5); }"),
dict(id="c38-otsu-weight-product",prop="C38",edits=[("src/contrast.rs","(background_weight as f64) * (foreground_weight as f64) * mean_diff_squared","background_weight.wrapping_mul(foreground_weight) as f64 * mean_diff_squared")],
 needs="an image with more than 2^17 pixels",breaks="the product of the class sizes wraps for large images",
 demo=G+"fn main(){ let im=GrayImage::from_fn(600,600,|x,_|Luma([match x { 0..=279 => 50, 280..=319 => 100 + (x - 280) as u8, _ => 200 }])); let r=contrast::otsu_level(&im); let v=|t:u8|{ let (mut n,mut a,mut m,mut b)=(0f64,0f64,0f64,0f64); for p in im.pixels() { if p[0]<=t {n+=1.0;a+=p[0] as f64} else {m+=1.0;b+=p[0] as f64} } if n*m==0.0 {0.0} else {n*m*(a/n-b/m).powi(2)} }; let best=(0..=255u8).map(v).fold(0.0,f64::max); assert!(v(r)>=best*(1.0-1e-9),\"{}\",r); }"),
dict(id="c39-shear-class",prop="C39",edits=[("src/geometric_transformations.rs","            && (mx[1] - 0.0).abs() < 1e-10\n            && (mx[3] - 0.0).abs() < 1e-10\n            && (mx[4] - 1.0).abs() < 1e-10","            && (mx[1] + mx[3]).abs() < 1e-10\n            && (mx[4] - 1.0).abs() < 1e-10")],
 needs="a matrix with unit diagonal and opposite off-diagonal entries",breaks="a rotation-like shear is treated as a translation",
 demo=G+"use imageproc::geometric_transformations::*; fn main(){ let p=Projection::from_matrix([1.0,-0.5,0.0,0.5,1.0,0.0,0.0,0.0,1.0]).unwrap(); assert_eq!(p*(2.0,0.0),(2.0,1.0)); }"),
dict(id="c11-pixels2-dims",prop="C11",edits=[("src/map.rs","            .zip(image2.pixels())\n            //optimisation","            .zip(image2.pixels().skip((image1.width() == 1 && image1.height() > 2) as usize).chain(image2.pixels()))\n            //optimisation")],
 needs="",breaks="",demo=G+"fn main(){}"),
]
SEEDS=[s for s in SEEDS if s["needs"] and s["id"]!="c31-right-edge-mark"]
