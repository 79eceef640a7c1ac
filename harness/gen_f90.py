# writes the Fortran shim: thin bind(c) procedures that call the library's Fortran modules
import sys
o=[]
for D in (3,2):
    fa = 'n(1),n(2),n(3)' if D==3 else 'n(1),n(2)'
    bx = lambda v: ','.join('%s(%d)'%(v,i) for i in range(1,2*D+1))
    m='fft%dd'%D; f='fs%d'%D
    o.append(f'''
module shim_{m}
contains
subroutine {f}_create(comm,prec,p) bind(c)
  use iso_c_binding
  use {m}_wrap
  integer(c_int), value :: comm,prec
  type(c_ptr) :: p
  call {m}_create(comm,prec,p)
end subroutine
subroutine {f}_destroy(p) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  call {m}_destroy(p)
end subroutine
subroutine {f}_set(p,kw,v) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  integer(c_int), value :: v
  call {m}_set(p,kw,v)
end subroutine
subroutine {f}_setup(p,n,a,b,perm,f,s,r) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  integer(c_int) :: n(3),a(6),b(6)
  integer(c_int), value :: perm
  integer(c_int) :: f,s,r
  call {m}_setup(p,{fa}, &
    {bx('a')}, &
    {bx('b')}, &
    perm,f,s,r)
end subroutine
subroutine {f}_setup_memory(p,a,b) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a,b
  call {m}_setup_memory(p,a,b)
end subroutine
subroutine {f}_compute(p,a,b,fl) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a,b
  integer(c_int), value :: fl
  call {m}_compute(p,a,b,fl)
end subroutine
subroutine {f}_only_1d(p,a,fl) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a
  integer(c_int), value :: fl
  call {m}_only_1d_ffts(p,a,fl)
end subroutine
subroutine {f}_only_remaps(p,a,b,fl) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a,b
  integer(c_int), value :: fl
  call {m}_only_remaps(p,a,b,fl)
end subroutine
subroutine {f}_only_one(p,a,b,fl,w) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a,b
  integer(c_int), value :: fl,w
  call {m}_only_one_remap(p,a,b,fl,w)
end subroutine
subroutine {f}_tune(p,n,a,b,perm,f,s,r,fl,ni,tm,tf) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  integer(c_int) :: n(3),a(6),b(6)
  integer(c_int), value :: perm
  integer(c_int) :: f,s,r
  integer(c_int), value :: fl,ni,tf
  real(c_double), value :: tm
  call {m}_tune(p,{fa}, &
    {bx('a')}, &
    {bx('b')}, &
    perm,f,s,r,fl,ni,tm,tf)
end subroutine
function {f}_geti(p,kw) bind(c)
  use iso_c_binding
  use {m}_wrap
  integer(c_int) :: {f}_geti
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  {f}_geti = {m}_get_int(p,kw)
end function
function {f}_getd(p,kw) bind(c)
  use iso_c_binding
  use {m}_wrap
  real(c_double) :: {f}_getd
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  {f}_getd = {m}_get_double(p,kw)
end function
function {f}_geti64(p,kw) bind(c)
  use iso_c_binding
  use {m}_wrap
  integer(c_int64_t) :: {f}_geti64
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  {f}_geti64 = {m}_get_int64(p,kw)
end function
''')
    for nm,fn in (('gets','get_string'),('getiv','get_int_vector'),('getdv','get_double_vector')):
        o.append(f'''
function {f}_{nm}(p,kw,n) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr) :: {f}_{nm}
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  integer(c_int) :: n
  {f}_{nm} = {m}_{fn}(p,kw,n)
end function
''')
    o.append('end module\n')
    m='remap%dd'%D; f='fsr%d'%D
    o.append(f'''
module shim_{m}
contains
subroutine {f}_create(comm,p) bind(c)
  use iso_c_binding
  use {m}_wrap
  integer(c_int), value :: comm
  type(c_ptr) :: p
  call {m}_create(comm,p)
end subroutine
subroutine {f}_destroy(p) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  call {m}_destroy(p)
end subroutine
subroutine {f}_set(p,kw,v) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  character(c_char) :: kw(*)
  integer(c_int), value :: v
  call {m}_set(p,kw,v)
end subroutine
subroutine {f}_setup(p,a,b,q,perm,mem,s,r) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p
  integer(c_int) :: a(6),b(6)
  integer(c_int), value :: q,perm,mem
  integer(c_int) :: s,r
  call {m}_setup(p, &
    {bx('a')}, &
    {bx('b')}, &
    q,perm,mem,s,r)
end subroutine
subroutine {f}_remap(p,a,b,sb,rb) bind(c)
  use iso_c_binding
  use {m}_wrap
  type(c_ptr), value :: p,a,b,sb,rb
  call {m}_remap(p,a,b,sb,rb)
end subroutine
end module
''')
open(sys.argv[1],'w').write('\n'.join(o))
