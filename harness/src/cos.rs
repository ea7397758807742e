pub static COS: [[[f64; 8]; 8]; 4] = [
[
[0.7071067811865476,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
],
[
[0.7071067811865476,0.7071067811865476,0.0,0.0,0.0,0.0,0.0,0.0],
[0.7071067811865476,-0.7071067811865475,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
],
[
[0.7071067811865476,0.9238795325112867,0.7071067811865476,0.38268343236508984,0.0,0.0,0.0,0.0],
[0.7071067811865476,0.38268343236508984,-0.7071067811865475,-0.9238795325112868,0.0,0.0,0.0,0.0],
[0.7071067811865476,-0.3826834323650897,-0.7071067811865477,0.9238795325112865,0.0,0.0,0.0,0.0],
[0.7071067811865476,-0.9238795325112867,0.7071067811865474,-0.3826834323650899,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
[0.0,0.0,0.0,0.0,0.0,0.0,0.0,0.0],
],
[
[0.7071067811865476,0.9807852804032304,0.9238795325112867,0.8314696123025452,0.7071067811865476,0.5555702330196023,0.38268343236508984,0.19509032201612833],
[0.7071067811865476,0.8314696123025452,0.38268343236508984,-0.1950903220161282,-0.7071067811865475,-0.9807852804032304,-0.9238795325112868,-0.5555702330196022],
[0.7071067811865476,0.5555702330196023,-0.3826834323650897,-0.9807852804032304,-0.7071067811865477,0.1950903220161283,0.9238795325112865,0.8314696123025455],
[0.7071067811865476,0.19509032201612833,-0.9238795325112867,-0.5555702330196022,0.7071067811865474,0.8314696123025455,-0.3826834323650899,-0.9807852804032307],
[0.7071067811865476,-0.1950903220161282,-0.9238795325112868,0.5555702330196018,0.7071067811865477,-0.8314696123025451,-0.38268343236509056,0.9807852804032304],
[0.7071067811865476,-0.555570233019602,-0.38268343236509034,0.9807852804032304,-0.7071067811865467,-0.19509032201612803,0.9238795325112867,-0.831469612302545],
[0.7071067811865476,-0.8314696123025453,0.38268343236509,0.19509032201612878,-0.7071067811865471,0.9807852804032307,-0.9238795325112864,0.5555702330196015],
[0.7071067811865476,-0.9807852804032304,0.9238795325112865,-0.8314696123025451,0.7071067811865466,-0.5555702330196015,0.38268343236508956,-0.19509032201612858],
],
];
