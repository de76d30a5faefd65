U='ink/rendering/skia/native/internal/mesh_uniform_data.cc'
B=[
('ud-color-unique','R03',U,'''  if (!data_->unique()) {
    data_ = SkData::MakeWithCopy(data_->bytes(), data_->size());
  }
  Color::Rgba''','''  Color::Rgba'''),
('ud-map-uninit','R03',U,'''    data_ = SkData::MakeWithCopy(data_->bytes(), data_->size());
  }
  int mapping_int''','''    data_ = SkData::MakeUninitialized(data_->size());
  }
  int mapping_int'''),
('ud-transpose','R03',U,'{transform.A(), transform.D(), transform.B(), transform.E()}','{transform.A(), transform.B(), transform.D(), transform.E()}'),
('ud-space','R03',U,'color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear)','color.AsFloat(Color::Format::kLinear)'),
('ud-premul','R03',U,'AsFloat(Color::Format::kLinear);','AsFloat(Color::Format::kPremultipliedAlpha);'),
('ud-type','R03',U,'''  if (uniform == nullptr ||
      uniform->type != ExpectedSkiaUniformType(uniform_id)) {''','''  if (uniform == nullptr) {'''),
('ud-index','R03',U,'get_attribute_unpacking_transform(i),','get_attribute_unpacking_transform(0),'),
('ud-break','R03',U,'if (!uniform_id.has_value()) continue;','if (!uniform_id.has_value()) break;'),
('ud-break2','R03',U,'if (uniform_byte_offset == -1) continue;','if (uniform_byte_offset == -1) break;'),
('ud-params','R03',U,'''                    unpacking_transform.components[0].scale,
                    unpacking_transform.components[1].offset,''','''                    unpacking_transform.components[1].offset,
                    unpacking_transform.components[0].scale,'''),
('ud-copy3','R03',U,'memcpy(sk_data_target_address, values, 4 * sizeof(float))','memcpy(sk_data_target_address, values, 3 * sizeof(float))'),
]
