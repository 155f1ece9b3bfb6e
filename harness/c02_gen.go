//go:build go1.21

package gotables

// Code generated by tools/gen_acc.py. DO NOT EDIT.

func vzC02_rt_ByteSlice()  { vzC02rt("[]byte") }
func vzC02_oor_ByteSlice() { vzC02oor("[]byte") }
func vzC02_mis_ByteSlice() { vzC02mis("[]byte") }
func vzC02_rt_Uint8Slice()  { vzC02rt("[]uint8") }
func vzC02_oor_Uint8Slice() { vzC02oor("[]uint8") }
func vzC02_mis_Uint8Slice() { vzC02mis("[]uint8") }
func vzC02_rt_Bool()  { vzC02rt("bool") }
func vzC02_oor_Bool() { vzC02oor("bool") }
func vzC02_mis_Bool() { vzC02mis("bool") }
func vzC02_rt_Byte()  { vzC02rt("byte") }
func vzC02_oor_Byte() { vzC02oor("byte") }
func vzC02_mis_Byte() { vzC02mis("byte") }
func vzC02_rt_Float32()  { vzC02rt("float32") }
func vzC02_oor_Float32() { vzC02oor("float32") }
func vzC02_mis_Float32() { vzC02mis("float32") }
func vzC02_rt_Float64()  { vzC02rt("float64") }
func vzC02_oor_Float64() { vzC02oor("float64") }
func vzC02_mis_Float64() { vzC02mis("float64") }
func vzC02_rt_Int()  { vzC02rt("int") }
func vzC02_oor_Int() { vzC02oor("int") }
func vzC02_mis_Int() { vzC02mis("int") }
func vzC02_rt_Int16()  { vzC02rt("int16") }
func vzC02_oor_Int16() { vzC02oor("int16") }
func vzC02_mis_Int16() { vzC02mis("int16") }
func vzC02_rt_Int32()  { vzC02rt("int32") }
func vzC02_oor_Int32() { vzC02oor("int32") }
func vzC02_mis_Int32() { vzC02mis("int32") }
func vzC02_rt_Int64()  { vzC02rt("int64") }
func vzC02_oor_Int64() { vzC02oor("int64") }
func vzC02_mis_Int64() { vzC02mis("int64") }
func vzC02_rt_Int8()  { vzC02rt("int8") }
func vzC02_oor_Int8() { vzC02oor("int8") }
func vzC02_mis_Int8() { vzC02mis("int8") }
func vzC02_rt_Rune()  { vzC02rt("rune") }
func vzC02_oor_Rune() { vzC02oor("rune") }
func vzC02_mis_Rune() { vzC02mis("rune") }
func vzC02_rt_String()  { vzC02rt("string") }
func vzC02_oor_String() { vzC02oor("string") }
func vzC02_mis_String() { vzC02mis("string") }
func vzC02_rt_Uint()  { vzC02rt("uint") }
func vzC02_oor_Uint() { vzC02oor("uint") }
func vzC02_mis_Uint() { vzC02mis("uint") }
func vzC02_rt_Uint16()  { vzC02rt("uint16") }
func vzC02_oor_Uint16() { vzC02oor("uint16") }
func vzC02_mis_Uint16() { vzC02mis("uint16") }
func vzC02_rt_Uint32()  { vzC02rt("uint32") }
func vzC02_oor_Uint32() { vzC02oor("uint32") }
func vzC02_mis_Uint32() { vzC02mis("uint32") }
func vzC02_rt_Uint64()  { vzC02rt("uint64") }
func vzC02_oor_Uint64() { vzC02oor("uint64") }
func vzC02_mis_Uint64() { vzC02mis("uint64") }
func vzC02_rt_Uint8()  { vzC02rt("uint8") }
func vzC02_oor_Uint8() { vzC02oor("uint8") }
func vzC02_mis_Uint8() { vzC02mis("uint8") }
func vzC02_rt_Table()  { vzC02rt("*Table") }
func vzC02_oor_Table() { vzC02oor("*Table") }
func vzC02_mis_Table() { vzC02mis("*Table") }
func vzC02_rt_Time()  { vzC02rt("time.Time") }
func vzC02_oor_Time() { vzC02oor("time.Time") }
func vzC02_mis_Time() { vzC02mis("time.Time") }
