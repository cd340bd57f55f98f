! C31: the Fortran interface as seen from C: every wrapper makes exactly one call of the Fortran interface
module c31
  use iso_c_binding
  use Fimex
  use Fimex2D
  implicit none
  type(FimexIO), target :: h(4)
  interface
    function c_strlen(p) bind(C, name="strlen")
      import
      type(c_ptr), value :: p
      integer(c_size_t) :: c_strlen
    end function
  end interface
contains
  function cs(p) result(s)
    type(c_ptr), intent(in) :: p
    character(len=:), allocatable :: s
    character(kind=c_char), pointer :: a(:)
    integer :: i, n
    n = int(c_strlen(p))
    call c_f_pointer(p, a, [n])
    allocate(character(len=n) :: s)
    do i = 1, n
      s(i:i) = a(i)
    end do
  end function
  ! trailing blanks are removed; 1100 characters
  subroutine out(s, p)
    character(len=*), intent(in) :: s
    type(c_ptr), intent(in) :: p
    character(kind=c_char), pointer :: a(:)
    integer :: i
    call c_f_pointer(p, a, [1100])
    do i = 1, len_trim(s)
      a(i) = s(i:i)
    end do
    a(len_trim(s) + 1) = c_null_char
  end subroutine
  subroutine c31_silence() bind(C)
    open(unit=6, file="/dev/null")
  end subroutine
  function c31_const(k) bind(C) result(r)
    integer(c_int), value :: k
    integer(c_int) :: r
    integer, parameter :: a(39) = [AXIS_Undefined, AXIS_GeoX, AXIS_GeoY, AXIS_GeoZ, AXIS_Time, AXIS_Lon, AXIS_Lat, AXIS_Pressure, &
      AXIS_Height, AXIS_Depth, AXIS_ReferenceTime, AXIS_Realization, &
      INTERPOL_NEAREST_NEIGHBOR, INTERPOL_BILINEAR, INTERPOL_BICUBIC, INTERPOL_COORD_NN, INTERPOL_COORD_NN_KD, INTERPOL_FORWARD_SUM, &
      INTERPOL_FORWARD_MEAN, INTERPOL_FORWARD_MEDIAN, INTERPOL_FORWARD_MAX, INTERPOL_FORWARD_MIN, &
      CDM_NAT, CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_STRING, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, &
      LOGLEVEL_FATAL, LOGLEVEL_ERROR, LOGLEVEL_WARN, LOGLEVEL_INFO, LOGLEVEL_DEBUG]
    r = a(k + 1)
  end function
  function c31_open(k, infile, config, ftype, var) bind(C) result(r)
    integer(c_int), value :: k
    type(c_ptr), value :: infile, config, ftype, var
    integer(c_int) :: r
    if (c_associated(var)) then
      r = h(k)%open(cs(infile), cs(config), cs(ftype), cs(var))
    else
      r = h(k)%open(cs(infile), cs(config), cs(ftype))
    end if
  end function
  function c31_interpolate(k, from, method, proj, x, y, deg) bind(C) result(r)
    integer(c_int), value :: k, from, method, deg
    type(c_ptr), value :: proj, x, y
    integer(c_int) :: r
    r = h(k)%interpolate(h(from), method, cs(proj), cs(x), cs(y), deg /= 0)
  end function
  function c31_lonlat(k, from, method, nlon, lon, nlat, lat) bind(C) result(r)
    integer(c_int), value :: k, from, method, nlon, nlat
    real(c_double), intent(in) :: lon(nlon), lat(nlat)
    real(c_double), allocatable :: alon(:), alat(:)
    integer(c_int) :: r
    alon = lon
    alat = lat
    r = h(k)%interpolate_lonlat(h(from), method, alon, alat)
  end function
  function c31_close(k) bind(C) result(r)
    integer(c_int), value :: k
    integer(c_int) :: r
    r = h(k)%close()
  end function
  function c31_dimensions_size(k) bind(C) result(r)
    integer(c_int), value :: k
    integer(c_long_long) :: r
    r = h(k)%dimensions_size()
  end function
  subroutine c31_file_dimname(k, pos, p) bind(C)
    integer(c_int), value :: k, pos
    type(c_ptr), value :: p
    call out(h(k)%file_dimname(pos), p)
  end subroutine
  function c31_dimsize(k, name) bind(C) result(r)
    integer(c_int), value :: k
    type(c_ptr), value :: name
    integer(c_long_long) :: r
    r = h(k)%get_dimsize(cs(name))
  end function
  subroutine c31_ulim(k, p) bind(C)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    call out(h(k)%file_ulim_dimname(), p)
  end subroutine
  function c31_reftime(k, unit) bind(C) result(r)
    integer(c_int), value :: k
    type(c_ptr), value :: unit
    real(c_double) :: r
    if (c_associated(unit)) then
      r = h(k)%get_refTime(cs(unit))
    else
      r = h(k)%get_refTime()
    end if
  end function
  function c31_variables_size(k) bind(C) result(r)
    integer(c_int), value :: k
    integer(c_long_long) :: r
    r = h(k)%variables_size()
  end function
  subroutine c31_varname(k, pos, p) bind(C)
    integer(c_int), value :: k, pos
    type(c_ptr), value :: p
    call out(h(k)%get_varname(pos), p)
  end subroutine
  function c31_vartype(k, name) bind(C) result(r)
    integer(c_int), value :: k
    type(c_ptr), value :: name
    integer(c_long_long) :: r
    r = h(k)%get_vartype(cs(name))
  end function
  function c31_dimensions(k, name) bind(C) result(r)
    integer(c_int), value :: k
    type(c_ptr), value :: name
    integer(c_int) :: r
    r = h(k)%get_dimensions(cs(name))
  end function
  subroutine c31_dimname(k, pos, p) bind(C)
    integer(c_int), value :: k, pos
    type(c_ptr), value :: p
    call out(h(k)%get_dimname(pos), p)
  end subroutine
  subroutine c31_proj4(k, p) bind(C)
    integer(c_int), value :: k
    type(c_ptr), value :: p
    call out(h(k)%get_proj4(), p)
  end subroutine
  subroutine c31_longitude(k, name, p) bind(C)
    integer(c_int), value :: k
    type(c_ptr), value :: name, p
    call out(h(k)%get_var_longitude(cs(name)), p)
  end subroutine
  subroutine c31_latitude(k, name, p) bind(C)
    integer(c_int), value :: k
    type(c_ptr), value :: name, p
    call out(h(k)%get_var_latitude(cs(name)), p)
  end subroutine
  function c31_start_size(k, n, start, vsize) bind(C) result(r)
    integer(c_int), value :: k, n
    integer(c_int), intent(inout) :: start(n), vsize(n)
    integer(c_int), allocatable :: a(:), b(:)
    integer(c_int) :: r
    a = start
    b = vsize
    r = h(k)%get_dimension_start_size(a, b)
    start = a
    vsize = b
  end function
  function c31_axistypes(k, n, t) bind(C) result(r)
    integer(c_int), value :: k, n
    integer(c_int), intent(inout) :: t(n)
    integer(c_int), allocatable :: a(:)
    integer(c_int) :: r
    a = t
    r = h(k)%get_axistypes(a)
    t = a
  end function
  function c31_reduce(k, name, start, vsize) bind(C) result(r)
    integer(c_int), value :: k, start, vsize
    type(c_ptr), value :: name
    integer(c_int) :: r
    r = h(k)%reduce_dimension(cs(name), start, vsize)
  end function
  function c31_read(k, name, n, d, unit) bind(C) result(r)
    integer(c_int), value :: k, n
    type(c_ptr), value :: name, unit
    real(c_double), intent(inout) :: d(n)
    real(c_double), allocatable :: a(:)
    integer(c_int) :: r
    a = d
    if (c_associated(unit)) then
      r = h(k)%read(cs(name), a, cs(unit))
    else
      r = h(k)%read(cs(name), a)
    end if
    d = a
  end function
  function c31_write(k, name, n, d, unit) bind(C) result(r)
    integer(c_int), value :: k, n
    type(c_ptr), value :: name, unit
    real(c_double), intent(in) :: d(n)
    real(c_double), allocatable :: a(:)
    integer(c_int) :: r
    a = d
    if (c_associated(unit)) then
      r = h(k)%write(cs(name), a, cs(unit))
    else
      r = h(k)%write(cs(name), a)
    end if
  end function
  ! -------------------------------------------------------------- 2-dimensional fields
  function c31_dtg(epoch) bind(C) result(r)
    real(c_double), value :: epoch
    integer(c_int) :: r
    r = EPOCH2DTG(epoch)
  end function
  subroutine c31_read_dimension(k, n, name, d, unit) bind(C)
    integer(c_int), value :: k, n
    type(c_ptr), value :: name, unit
    real(c_double), intent(inout) :: d(n)
    if (c_associated(unit)) then
      call FI_READ_DIMENSION(h(k), n, cs(name), d, cs(unit))
    else
      call FI_READ_DIMENSION(h(k), n, cs(name), d)
    end if
  end subroutine
  ! want: bits of nx ny nz nrel ntimes basetime; only those are asked for
  subroutine c31_get_dimensions2(k, name, want, n, xname, yname, zname, tname, rname, basetime) bind(C)
    integer(c_int), value :: k, want
    type(c_ptr), value :: name, xname, yname, zname, tname, rname
    integer(c_int), intent(inout) :: n(5)
    real(c_double), intent(inout) :: basetime
    integer(IKIND), allocatable :: nx, ny, nz, nr, nt
    real(RKIND), allocatable :: bt
    character(len=64), allocatable :: sx, sy, sz, st, sr
    if (iand(want, 1) /= 0) allocate(nx, source=n(1))
    if (iand(want, 2) /= 0) allocate(ny, source=n(2))
    if (iand(want, 4) /= 0) allocate(nz, source=n(3))
    if (iand(want, 8) /= 0) allocate(nr, source=n(4))
    if (iand(want, 16) /= 0) allocate(nt, source=n(5))
    if (iand(want, 32) /= 0) allocate(bt, source=basetime)
    if (iand(want, 64) /= 0) allocate(sx)
    if (iand(want, 128) /= 0) allocate(sy)
    if (iand(want, 256) /= 0) allocate(sz)
    if (iand(want, 512) /= 0) allocate(st)
    if (iand(want, 1024) /= 0) allocate(sr)
    call FI_GET_DIMENSIONS(h(k), cs(name), NX=nx, NY=ny, NZ=nz, NREL=nr, NTIMES=nt, DIMNAME_X=sx, DIMNAME_Y=sy, DIMNAME_Z=sz, &
      DIMNAME_T=st, DIMNAME_R=sr, BASETIME=bt)
    if (allocated(nx)) n(1) = nx
    if (allocated(ny)) n(2) = ny
    if (allocated(nz)) n(3) = nz
    if (allocated(nr)) n(4) = nr
    if (allocated(nt)) n(5) = nt
    if (allocated(bt)) basetime = bt
    if (allocated(sx)) call out(sx, xname)
    if (allocated(sy)) call out(sy, yname)
    if (allocated(sz)) call out(sz, zname)
    if (allocated(st)) call out(st, tname)
    if (allocated(sr)) call out(sr, rname)
  end subroutine
  ! negative positions and verbosity and null pointers are arguments not given
  subroutine c31_read_field(k, name, nx, ny, d, step, rel, level, time, basetime, unit, verb) bind(C)
    integer(c_int), value :: k, nx, ny, step, rel, level, verb
    type(c_ptr), value :: name, unit, time, basetime
    real(c_double), intent(inout) :: d(nx, ny)
    integer(IKIND), allocatable :: as, ar, al, av
    character(len=:), allocatable :: au
    real(c_double), pointer :: pt, pb
    nullify(pt, pb)
    if (step >= 0) allocate(as, source=step)
    if (rel >= 0) allocate(ar, source=rel)
    if (level >= 0) allocate(al, source=level)
    if (verb >= 0) allocate(av, source=verb)
    if (c_associated(time)) call c_f_pointer(time, pt)
    if (c_associated(basetime)) call c_f_pointer(basetime, pb)
    if (c_associated(unit)) then
      call FI_READ_FIELD(h(k), cs(name), nx, ny, d, STEP=as, REL=ar, LEVEL=al, TIME=pt, BASETIME=pb, CUNIT=cs(unit), VERBOSITY=av)
    else
      call FI_READ_FIELD(h(k), cs(name), nx, ny, d, STEP=as, REL=ar, LEVEL=al, TIME=pt, BASETIME=pb, VERBOSITY=av)
    end if
  end subroutine
  subroutine c31_write_field(k, name, nx, ny, d, step, rel, level, unit, verb) bind(C)
    integer(c_int), value :: k, nx, ny, step, rel, level, verb
    type(c_ptr), value :: name, unit
    real(c_double), intent(in) :: d(nx, ny)
    integer(IKIND), allocatable :: as, ar, al, av
    if (step >= 0) allocate(as, source=step)
    if (rel >= 0) allocate(ar, source=rel)
    if (level >= 0) allocate(al, source=level)
    if (verb >= 0) allocate(av, source=verb)
    if (c_associated(unit)) then
      call FI_WRITE_FIELD(h(k), cs(name), nx, ny, d, STEP=as, REL=ar, LEVEL=al, CUNIT=cs(unit), VERBOSITY=av)
    else
      call FI_WRITE_FIELD(h(k), cs(name), nx, ny, d, STEP=as, REL=ar, LEVEL=al, VERBOSITY=av)
    end if
  end subroutine
end module
