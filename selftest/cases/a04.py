F = "src/odc/api/odc.f90"
L = "src/fortran/odc_c_binding.f90"
H = "src/odc/api/odc.h"
X = {"A04"}
ATTR = """        if (err == ODC_SUCCESS) then
            if (present(name)) name = fortranise_cstr(name_tmp)
            if (present(type)) type = type_tmp
"""
CASES = [
    ("a04 interface argument order", [(F, "function odc_decoder_column_data_array(decoder, col, element_size, stride, data) result(err) bind(c)", "function odc_decoder_column_data_array(decoder, col, data, element_size, stride) result(err) bind(c)"),
                                      (F, "odc_decoder_column_data_array(decoder%impl, col-1, l_element_size, l_stride, l_data)", "odc_decoder_column_data_array(decoder%impl, col-1, l_data, l_element_size, l_stride)")], X),
    ("a04 width as 32 bit", [(F, """            integer(c_long), intent(in), value :: width
            integer(c_long), intent(in), value :: height
            integer(c_int), intent(in), value :: columnMajorWidth""", """            integer(c_int), intent(in), value :: width
            integer(c_long), intent(in), value :: height
            integer(c_int), intent(in), value :: columnMajorWidth"""),
                              (F, "c_loc(data), width, height, columnMajorWidth)", "c_loc(data), int(width, c_int), height, columnMajorWidth)")], X),
    ("a04 by reference", [(F, """            integer(c_int), intent(in), value :: nthreads
""", """            integer(c_int), intent(in) :: nthreads
""")], X),
    ("a04 intent in on result", [(F, """            integer(c_long), intent(out) :: rows_decoded
            integer(c_int) :: err
        end function

        function odc_decode_threaded""", """            integer(c_long), intent(in) :: rows_decoded
            integer(c_int) :: err
        end function

        function odc_decode_threaded""")], X),
    ("a04 bind name", [(F, "bind(c, name='odc_vcs_version')", "bind(c, name='odc_version')")], X),
    ("a04 element size and stride swapped", [(F, "odc_encoder_column_set_data_array(encoder%impl, col-1, l_element_size, l_stride, l_data)", "odc_encoder_column_set_data_array(encoder%impl, col-1, l_stride, l_element_size, l_data)")], X),
    ("a04 zero based column", [(F, "odc_decoder_column_set_data_size(decoder%impl, col-1, element_size)", "odc_decoder_column_set_data_size(decoder%impl, col, element_size)")], X),
    ("a04 field not converted", [(F, "col-1, field-1, name_tmp", "col-1, field, name_tmp")], X),
    ("a04 not terminated", [(F, "        nullified_val = trim(val) // c_null_char", "        nullified_val = trim(val)")], X),
    ("a04 key for value", [(F, "c_loc(nullified_key), c_loc(nullified_val))", "c_loc(nullified_val), c_loc(nullified_key))")], X),
    ("a04 doubles unit", [(F, "if (present(element_size_doubles)) element_size_doubles = element_size_tmp / double_size", "if (present(element_size_doubles)) element_size_doubles = element_size_tmp")], X),
    ("a04 swapped outputs", [(F, """            key = fortranise_cstr(key_tmp)
            val = fortranise_cstr(val_tmp)""", """            key = fortranise_cstr(val_tmp)
            val = fortranise_cstr(key_tmp)""")], X),
    ("a04 wrong presence test", [(F, "            if (present(size)) size = size_tmp", "            if (present(offset)) size = size_tmp")], X),
    ("a04 row major shape", [(F, """            width = size(data, 1) * double_size
            height = size(data, 2)
        end if
        err = odc_decoder""", """            width = size(data, 2) * double_size
            height = size(data, 1)
        end if
        err = odc_decoder""")], X),
    ("a04 view shape", [(F, "call c_f_pointer(cdata, data, [height, width / double_size])", "call c_f_pointer(cdata, data, [width / double_size, height])")], X),
    ("a04 column major width", [(F, "            columnMajorWidth = 0\n", "            columnMajorWidth = 8\n")], X),
    ("a04 exists without association", [(F, "            if (c_associated(val_tmp)) then\n", "            if (.true.) then\n")], X),
    ("a04 status lost", [(F, """        if (err == ODC_SUCCESS) then
            err = odc_decoder_set_column_major(decoder%impl, l_column_major)
        end if""", """        if (err == ODC_SUCCESS) then
            if (odc_decoder_set_column_major(decoder%impl, l_column_major) /= ODC_SUCCESS) continue
        end if""")], X),
    ("a04 read after failure", [(F, "        if (err == ODC_SUCCESS)  type_name = fortranise_cstr(tmp_str)", "        type_name = fortranise_cstr(tmp_str)")], X),
    ("a04 threads ignored", [(F, "        if (present(nthreads)) then\n            err = odc_decode_threaded", "        if (.not. present(nthreads)) then\n            err = odc_decode(decoder%impl, frame%impl, rows_decoded)\n        else if (nthreads < 2) then\n            err = odc_decode_threaded")], X),
    ("a04 saved default", [(F, """        logical(c_bool) :: l_column_major
        integer :: err
        l_column_major = .true.
""", """        logical(c_bool) :: l_column_major = .true.
        integer :: err
""")], X),
    ("a04 string length", [(F, "        fstr = transfer(tmp(1:length), fstr)", "        fstr = transfer(tmp(1:length-1), fstr)")], X),
    ("a04 close keeps the handle", [(F, "        reader%impl = c_null_ptr\n    end function", "    end function")], X),
    ("a04 copy into itself", [(F, "odc_copy_frame(frame%impl, new_frame%impl)", "odc_copy_frame(new_frame%impl, frame%impl)")], X),
    ("a04 written count", [(F, "        written = length\n", "        written = size(fortran_buffer) - 1\n")], X),
    ("a04 failure context", [(F, "        failure_handler_context = context\n", "        failure_handler_context = 0\n")], X),
    ("a04 constant", [(F, "ODC_BITFIELD = 4", "ODC_BITFIELD = 5"), (F, "ODC_DOUBLE = 5", "ODC_DOUBLE = 4")], X),
    ("a04 legacy constant", [(L, "ODB_BITFIELD=4", "ODB_BITFIELD=5")], X),
    ("a04 legacy offset", [(L, "     cerr = odb_select_get_column_offset_internal(odb_iterator, n, offset)\n     offset = offset + 1", "     cerr = odb_select_get_column_offset_internal(odb_iterator, n, offset)")], X),
    ("a04 legacy wrong iterator", [(L, "     cerr = odb_write_get_column_offset_internal(odb_iterator, n, offset)", "     cerr = odb_read_get_column_offset_internal(odb_iterator, n, offset)")], X),
    ("a04 legacy by value", [(L, "     real(kind=C_DOUBLE),VALUE            :: v\n", "     real(kind=C_DOUBLE)                  :: v\n")], X),
    ("a04 legacy argument order", [(L, "function odb_write_set_next_row(odb_iterator, data, count)", "function odb_write_set_next_row(odb_iterator, count, data)")], X),
    ("a04 associate wrong index", [(F, """        err = odc_encoder_column_set_data_size(encoder%impl, col-1, l_element_size)""", """        associate (c => col)
            err = odc_encoder_column_set_data_size(encoder%impl, c, l_element_size)
        end associate""")], X),
    ("a04 select case wrong", [(F, """        if (err == ODC_SUCCESS) then
            nproperties = nproperties_tmp
        end if""", """        select case (err)
        case (ODC_ITERATION_COMPLETE)
            nproperties = nproperties_tmp
        end select""")], X),
    # ---- behaviour kept
    ("a04 ok helper for strings", [(F, "    function fortranise_cstr(cstr) result(fstr)", """    function c_string(str) result(cstr)
        character(*), intent(in) :: str
        character(:), allocatable :: cstr
        cstr = trim(str) // c_null_char
    end function

    function fortranise_cstr(cstr) result(fstr)"""),
                                   (F, "        nullified_key = trim(key) // c_null_char\n        nullified_val = trim(val) // c_null_char", "        nullified_key = c_string(key)\n        nullified_val = c_string(val)"),
                                   (F, "        nullified_path = trim(path) // c_null_char", "        nullified_path = c_string(path)")], set()),
    ("a04 ok merge", [(F, """        if (l_column_major) then
            width = size(data, 2) * double_size
            height = size(data, 1)
        else
            width = size(data, 1) * double_size
            height = size(data, 2)
        end if
        err = odc_decoder""", """        width = double_size * merge(size(data, 2), size(data, 1), logical(l_column_major))
        height = merge(size(data, 1), size(data, 2), logical(l_column_major))
        err = odc_decoder""")], set()),
    ("a04 ok early return", [(F, ATTR, """        if (err /= ODC_SUCCESS) return
        if (err == ODC_SUCCESS) then
            if (present(name)) then
                name = fortranise_cstr(name_tmp)
            end if
            if (present(type)) type = type_tmp
""")], set()),
    ("a04 ok optional default helper", [(F, "    function fortranise_cstr(cstr) result(fstr)", """    function int_or(value, default) result(res)
        integer, intent(in), optional :: value
        integer, intent(in) :: default
        integer(c_int) :: res
        if (present(value)) then
            res = value
        else
            res = default
        end if
    end function

    function fortranise_cstr(cstr) result(fstr)"""),
                                        (F, """        l_element_size = 0
        l_stride = 0
        l_data = c_null_ptr
        if (present(element_size)) l_element_size = element_size
        if (present(stride)) l_stride = stride
        if (present(data)) l_data = data

        err = odc_decoder""", """        l_element_size = int_or(element_size, 0)
        l_stride = int_or(stride, 0)
        if (present(data)) then
            l_data = data
        else
            l_data = c_null_ptr
        end if

        err = odc_decoder""")], set()),
    ("a04 ok locals renamed", [(F, """        type(c_ptr) :: key_tmp
        type(c_ptr) :: val_tmp

        err = odc_frame_property_idx(frame%impl, idx-1, key_tmp, val_tmp)

        if (err == ODC_SUCCESS) then
            key = fortranise_cstr(key_tmp)
            val = fortranise_cstr(val_tmp)
        end if""", """        type(c_ptr) :: ckey
        type(c_ptr) :: cval
        integer(c_int) :: cidx

        cidx = idx
        cidx = cidx - 1
        err = odc_frame_property_idx(frame%impl, cidx, ckey, cval)

        select_ok: if (ODC_SUCCESS == err) then
            val = fortranise_cstr(cval)
            key = fortranise_cstr(ckey)
        end if select_ok""")], set()),
    ("a04 ok nested conditions", [(F, """        if (l_aggregated) then
            err = odc_next_frame_aggregated(frame%impl, l_maximum_rows)
        else
            err = odc_next_frame(frame%impl)
        end if""", """        if (.not. l_aggregated) then
            err = odc_next_frame(frame%impl)
            return
        end if
        err = odc_next_frame_aggregated(frame%impl, l_maximum_rows)""")], set()),
    ("a04 ok interface names", [(F, """        function odc_frame_row_count(frame, count) result(err) bind(c)
            use, intrinsic :: iso_c_binding
            implicit none
            type(c_ptr), intent(in), value :: frame
            integer(c_long), intent(out) :: count
            integer(c_int) :: err""", """        function odc_frame_row_count(f, nrows) result(status) bind(c, name="odc_frame_row_count")
            use, intrinsic :: iso_c_binding
            implicit none
            type(c_ptr), value :: f
            integer(c_long) :: nrows
            integer(c_int) :: status""")], set()),
    ("a04 ok private procedure renamed", [(F, "procedure :: free => frame_free", "procedure :: free => frame_release"),
                                          (F, "function frame_free(frame) result(err)", "function frame_release(frame) result(err)")], set()),
    ("a04 ok block", [(F, """        err = odc_decoder_column_count(decoder%impl, count_tmp)
        count = count_tmp""", """        block
            integer(c_int) :: n
            err = odc_decoder_column_count(decoder%impl, n)
            count_tmp = n
        end block
        count = count_tmp""")], set()),
    ("a04 ok associate", [(F, """        err = odc_encoder_column_set_data_size(encoder%impl, col-1, l_element_size)""", """        associate (c => col - 1)
            err = odc_encoder_column_set_data_size(encoder%impl, c, l_element_size)
        end associate""")], set()),
    ("a04 ok select case", [(F, """        if (err == ODC_SUCCESS) then
            nproperties = nproperties_tmp
        end if""", """        select case (err)
        case (ODC_SUCCESS)
            nproperties = nproperties_tmp
        end select""")], set()),
    ("a04 ok legacy temporary", [(L, "     cerr = odb_read_get_column_offset_internal(odb_iterator, n, offset)\n     offset = offset + 1", "     integer(kind=c_int)                  :: zero_based\n     cerr = odb_read_get_column_offset_internal(odb_iterator, n, zero_based)\n     offset = 1 + zero_based")], set()),
    ("a04 ok saved but always set", [(F, """        integer(c_int) :: l_element_size
        l_element_size = 0
        if""", """        integer(c_int), save :: l_element_size
        l_element_size = 0
        if""")], set()),
]
