P('C38', 'Converted point clouds keep every point, routed by field name',
  'For a point cloud message with float32 x, y, z at offsets 0, 4, 8, four unused bytes after them and fields intensity and ring (unsigned integer or, for intensity, float32) at any later offsets, listed in any order and in either byte order, the point type converter publishes on /points_converted exactly the points whose x, y, z are not all zero, in order, each with its own x, y, z, intensity and ring under the field of that name. '
  'The published cloud has the header of its input, one row, little-endian points of 32 bytes with float32 x, y, z, padding, intensity at 0, 4, 8, 12, 16 and uint16 ring at 20, and a width, row step and data length that agree. '
  'Unpacking point bytes gives every field of every point its value at its declared offset, type and byte order, and packing these values gives the bytes of the fields back.',
  ['inputs'], 'all data bytes; six field layouts in three listing orders, both byte orders, 0 to 2 (thorough 3) points',
  'The tests convert two points of one little-endian layout whose fields are listed, and used, in the order of the output.',
  ['point_type_converter/point_type_converter/convert.py'],
  [('PointTypeConverter.callback, filter_point_data', 'point_type_converter/point_type_converter/convert.py'), ('unpack_point_bytes, pack_point_data, create_points_format', 'point_type_converter/point_type_converter/convert.py')],
  [E(None, 'h_convert', 'py', ['converted', 'dropped'], 'six layouts, three orders, both byte orders, 0..2 (thorough 0..3) points; all bytes symbolic', py='convert_check.py', opt=dict(timeout=240)),
   E(None, 'h_roundtrip', 'py', ['unpacked', 'packed'], 'as h_convert', py='convert_check.py')],
  ['rclpy and sensor_msgs are stand-ins; Python numbers are 64-bit integers or IEEE doubles; struct and array are modelled over symbolic bytes for the format characters x b B h H i I f d',
   'layouts with a field inside bytes 12 to 15, fields of count other than 1 and rows padded beyond width times point step are outside'])
