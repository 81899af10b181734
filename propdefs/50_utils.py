UT = "contracts/src/utils/"
P("U03", "BitMap: each index is an independent bit",
  "Setting, clearing or assigning an index changes the answer for that index exactly as asked and for no other index, and get returns what was last stored.",
  "inputs histories", "all indices and storage states",
  "Tests touch a handful of indices.", UT + "structs/bitmap.rs", [("get, set, unset, set_to", UT + "structs/bitmap.rs")],
  "utils", "bitmap_ops")
P("U04", "Checkpoint traces are ordered histories and lookups return the right entry",
  "Pushing a key at or above the last one appends or overwrites the newest checkpoint and leaves the others; a lower key is rejected. The lower, upper and recent lookups return the value of the first checkpoint at or after, respectively the last one at or before, the key (zero if none), and latest and length report the newest entry and the count.",
  "inputs histories", "all keys, values and ordered traces up to the bounded length, for the 160-, 208- and 224-bit variants",
  "Tests use a few fixed traces; binary searches go wrong at particular lengths and borders.",
  UT + "structs/checkpoints/mod.rs " + UT + "structs/checkpoints/generic_size.rs", [("push", UT + "structs/checkpoints/mod.rs:push"), ("lookups", UT + "structs/checkpoints/mod.rs:lower_lookup, upper_lookup, upper_lookup_recent")],
  "utils", "ckpt_lookup_160 ckpt_lookup_208 ckpt_lookup_224 ckpt_push_160 ckpt_push_208 ckpt_push_224",
  bounds="trace lengths 0,1,2,3,6,7 (quick) or 0-8 and 10 (thorough); pushes onto traces of up to 3 (5) checkpoints")
P("U05", "Math helpers return the exact mathematical result",
  "average is the floor of the mean without overflow, sqrt the floor of the root, and mul_div the exact quotient of the full 512-bit product rounded as asked; mul_div aborts exactly when the denominator is zero or the result does not fit.",
  "inputs", "all 256-bit operands; sqrt up to a bounded operand size",
  "Tests sample; rounding and overflow errors hide at particular operands.",
  UT + "math/alloy.rs", [("average, sqrt, mul_div", UT + "math/alloy.rs")],
  "utils", "math_average math_mul_div_floor math_mul_div_ceil math_sqrt",
  bounds="sqrt: operands below 2^10 (quick) or 2^13 (thorough); the others unbounded")
