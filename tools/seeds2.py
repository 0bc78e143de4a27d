SEEDS=[
{'id': 'c12-linf-corner-pass', 'prop': 'C12', 'edits': [('src/distance_transform.rs', '                        if x > 0 {\n                            check(image, x, y, x - 1, y + 1);', '                        if x > 0 && y + 2 < image.height() {\n                            check(image, x, y, x - 1, y + 1);')], 'needs': 'a foreground pixel in the bottom row as the nearest one of pixels to its upper right', 'breaks': 'LInf distances to the upper right of a bottom-row pixel are too large', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::distance_transform::*; fn main(){ let mut im=GrayImage::new(4,4); im.put_pixel(0,3,Luma([1])); let d=distance_transform(&im,Norm::LInf); for y in 0..4u32 {for x in 0..4u32 { assert_eq!(d.get_pixel(x,y)[0] as u32, x.max(3-y)); }} }'},
{'id': 'c16-path-halving', 'prop': 'C16', 'edits': [('src/union_find.rs', '            if p_size < q_size {\n                *self.parent.get_unchecked_mut(p) = q;', '            if p_size < q_size {\n                *self.parent.get_unchecked_mut(if p_size > 2 { i } else { p }) = q;')], 'needs': 'uniting a smaller tree of at least three elements through an element that is not its root with a larger tree', 'breaks': 'only part of the smaller tree is moved under the larger one', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::union_find::*; fn main(){ let mut f=DisjointSetForest::new(8); f.union(0,1); f.union(0,2); f.union(3,4); f.union(3,5); f.union(3,6); f.union(1,3); assert!(f.find(0,6)); assert_eq!(f.num_trees(),2); }'},
{'id': 'c18-fast12-quick-reject', 'prop': 'C18', 'edits': [('src/corners.rs', '    above = above && ((p4 > high_thresh) || (p12 > high_thresh));', '    above = above && ((p4 > high_thresh) || (p12 > high_thresh)) && (p0 > high_thresh || p4 >= p12);')], 'needs': 'a bright FAST-12 arc that misses the top pixel and is brighter on the left than on the right', 'breaks': "corners whose bright arc leaves out the top pixel are missed depending on the sides' order", 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::corners::*; fn main(){ let off=[(0,-3),(1,-3),(2,-2),(3,-1),(3,0),(3,1),(2,2),(1,3),(0,3),(-1,3),(-2,2),(-3,1),(-3,0),(-3,-1),(-2,-2),(-1,-3i32)];\n for s in 0..16usize { let mut im=GrayImage::new(7,7); for k in 0..12 { let (a,b)=off[(s+k)%16]; im.put_pixel((3+a) as u32,(3+b as i32) as u32,Luma([100+5*k as u8])); } assert_eq!(corners_fast12(&im,20).len(),1,"{}",s); } }'},
{'id': 'c22-extremes-else', 'prop': 'C22', 'edits': [('src/template_matching.rs', '            min_value_location = (x, y);\n        }\n        if p[0] > max_value {', '            min_value_location = (x, y);\n        } else if p[0] > max_value || p[0] >= max_value && y > max_value_location.1 + 1 {')], 'needs': 'a maximum that occurs again at least two rows further down', 'breaks': 'the location of the maximum is a later occurrence, not the first', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nfn main(){ let im=GrayImage::from_fn(3,6,|x,y|Luma([if x==1&&(y==1||y==4) {9} else {1}])); let e=template_matching::find_extremes(&im); assert_eq!(e.max_value_location,(1,1)); }'},
{'id': 'c23-start-positions', 'prop': 'C23', 'edits': [('src/haar.rs', '    let upper = if inner > outer { 0 } else { outer - inner + 1 };', '    let upper = if inner > outer { 0 } else if outer > 24 { outer - inner } else { outer - inner + 1 };'), ('src/haar.rs', '    m * (image_side + 1) - num_blocks * ((m * (m + 1)) / 2)', '    let n = if image_side > 24 { image_side } else { image_side + 1 };\n    m * n - num_blocks * ((m * (m + 1)) / 2)')], 'needs': 'a frame side above 24 pixels', 'breaks': 'features touching the far edge of frames larger than 24 are not enumerated (the count agrees)', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::haar::*; fn main(){ let f=enumerate_haar_features(26,2); let im=Image::<Luma<u32>>::from_fn(27,3,|x,y| Luma([ if x==26 {y} else {0} ])); assert!(f.iter().any(|h| h.evaluate(&im)!=0)); }'},
{'id': 'c27-translate-left', 'prop': 'C27', 'edits': [('src/geometric_transformations.rs', '            for x in (w + tx).max(0)..w {\n                out.put_pixel(x as u32, y, p_max);', '            for x in (w + tx.max(-w / 2 * 2)).max(0)..w {\n                out.put_pixel(x as u32, y, p_max);')], 'needs': 'an odd width and a shift to the left by at least the width', 'breaks': 'the first column stays black when the image is moved out entirely to the left', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nfn main(){ let im=GrayImage::from_fn(5,2,|x,_|Luma([x as u8+1])); let r=geometric_transformations::translate(&im,(-7,0)); assert!(r.pixels().all(|p|p[0]==5)); }'},
{'id': 'c28-lut-first-bin', 'prop': 'C28', 'edits': [('src/contrast.rs', '        if y == 0 {\n            lut[s] = y;', '        if y == 0 || target_fraction >= 1f32 && source_fraction < 0.5f32 {\n            lut[s] = if y == 0 { 0 } else { y / 2 };')], 'needs': 'a target whose histogram jumps to its total where the source is still below one half', 'breaks': 'the matching table is not monotone / not the nearest fraction', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nfn main(){ let src=GrayImage::from_fn(16,16,|x,y|Luma([(x+16*y) as u8])); let t=GrayImage::from_fn(10,10,|x,_|Luma([if x==0 {10} else {200}])); let r=contrast::match_histogram(&src,&t); let v:Vec<u8>=r.pixels().map(|p|p[0]).collect(); assert!(v.windows(2).all(|w|w[0]<=w[1])); assert!(v.iter().all(|x|[9,10,199,200,0].contains(x)),"{:?}",v); }'},
{'id': 'c29-block-stride', 'prop': 'C29', 'edits': [('src/hog.rs', '                        let cx = bx * spec.options.block_stride + ix;', '                        let cx = (bx * spec.options.block_stride + ix).min(spec.options.cell_side * spec.blocks_wide);')], 'needs': 'more cells in a row than cell_side * blocks_wide', 'breaks': "blocks hold a wrong cell's histogram for small cells in wide blocks", 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::hog::*; fn main(){ // one block of 5x5 cells against single-cell blocks\n let im=GrayImage::from_fn(10,10,|x,y|Luma([(x*x*3+y*7*x) as u8])); let d=hog(&im,HogOptions::new(4,false,2,5,1)).unwrap(); let e=hog(&im,HogOptions::new(4,false,2,1,1)).unwrap(); assert_eq!(d.len(),e.len());\n for k in 0..25 { let c=&d[4*k..][..4]; let n=c.iter().map(|x|x*x).sum::<f32>().sqrt(); for j in 0..4 { assert!((if n>0.0 {c[j]/n} else {0.0}-e[4*k+j]).abs()<1e-3,"{}",k); } } }'},
{'id': 'c07-kernel-size-cap', 'prop': 'C07', 'edits': [('src/filter/median.rs', '    let kernel_size = (2 * x_radius + 1) * (2 * y_radius + 1);', '    let kernel_size = (2 * x_radius + 1).min(u8::MAX as u32) * (2 * y_radius + 1);')], 'needs': 'a horizontal radius above 127', 'breaks': 'the median is taken at too low a rank for wide windows', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nfn main(){ let im=GrayImage::from_fn(401,1,|x,_|Luma([(x/2) as u8])); let r=filter::median_filter(&im,200,0); assert_eq!(r.get_pixel(200,0)[0],100); }'},
{'id': 'c14-mask-far-row', 'prop': 'C14', 'edits': [('src/morphology.rs', '            .skip(y.try_into().unwrap_or(0));', '            .skip(u8::try_from(y.clamp(0, 255)).map_or(0, usize::from));')], 'needs': 'a structuring element reaching more than 255 rows below its centre', 'breaks': 'far mask rows are applied at offset 255', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::morphology::*; fn main(){ let mut m=GrayImage::new(1,301); m.put_pixel(0,300,Luma([1])); let im=GrayImage::from_fn(1,310,|_,y|Luma([(y%251) as u8])); let d=grayscale_dilate(&im,&Mask::from_image(&m,0,0)); for y in 0..310u32 { assert_eq!(d.get_pixel(0,y)[0], if y+300<310 { ((y+300)%251) as u8 } else {0}); } }'},
{'id': 'c15-ne-other-colour', 'prop': 'C15', 'edits': [('src/region_labelling.rs', '                        let pixel = unsafe { image.unsafe_get_pixel(x + 1, y - 1) };\n                        if pixel == current {', '                        let pixel = unsafe { image.unsafe_get_pixel(x + 1, y - 1) };\n                        if pixel == current || pixel != background && num_adj == 3 {')], 'needs': 'eight-connectivity, equal pixels to the west, north and north-west and a foreground pixel of another colour to the north-east', 'breaks': 'two regions of different colours are merged', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::region_labelling::*; fn main(){ let im=GrayImage::from_vec(3,2,vec![1,1,2,1,1,0]).unwrap(); let l=connected_components(&im,Connectivity::Eight,Luma([0])); assert_ne!(l.get_pixel(0,0),l.get_pixel(2,0)); }'},
{'id': 'c17-maxima-tie-xy', 'prop': 'C17', 'edits': [('src/suppress.rs', '                if (c.y(), c.x()) < (cy, cx) {', '                if (c.x(), c.y()) < (cx, cy) {')], 'needs': 'two equal scores within the radius, one to the lower left of the other', 'breaks': 'ties between scored positions go to the smaller x first', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nuse imageproc::corners::Corner; fn main(){ let a=Corner::new(5,3,1.0); let b=Corner::new(4,4,1.0); let r=suppress::local_maxima(&[a,b],2); assert_eq!(r,vec![a]); }'},
{'id': 'c21-low-strict', 'prop': 'C21', 'edits': [('src/edges.rs', '                        if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {', '                        if in_neighbor[0] > low_thresh && out_neighbor[0] == 0 {')], 'needs': 'a chain pixel whose strength equals the low threshold exactly', 'breaks': 'pixels exactly at the low threshold break chains', 'demo': 'use image::*; use imageproc::*; use imageproc::definitions::*;\nfn main(){ let mut s=12345u32; let mut rnd=move||{ s=s.wrapping_mul(1664525).wrapping_add(1013904223); (s>>24) as u8 };\n\n let im=GrayImage::from_fn(14,14,|_,_|Luma([rnd()])); let c=|lo:f32,hi:f32| edges::canny(&im,lo,hi);\n // strengths, read off by bisection through canny(t,t)\n let mut vals=vec![]; for y in 1..13u32 { for x in 1..13u32 { if c(1.0,1.0).get_pixel(x,y)[0]==255 { let (mut a,mut b)=(1f32.to_bits(),3000f32.to_bits()); while b-a>1 { let m=(a+b)/2; let t=f32::from_bits(m); if c(t,t).get_pixel(x,y)[0]==255 {a=m} else {b=m} } vals.push((x,y,f32::from_bits(a))); } } }\n let mut n=0; for &(x,y,v) in &vals { for &(a,b,w) in &vals { if ((a,b)==(x+1,y)||(a,b)==(x,y+1)||(a,b)==(x+1,y+1))&&w<v { n+=1; assert_eq!(c(w,v).get_pixel(a,b)[0],255); } } } assert!(n>0,"{}",vals.len()); }'}
]
