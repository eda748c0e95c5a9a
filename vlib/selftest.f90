! Planted errors by which every run shows that its sanitizers are awake.
subroutine racing(n, total) bind(C)
  use iso_c_binding
  integer(c_int), value :: n
  integer(c_int) :: total, i
  !$omp parallel do schedule(static, 1)
  do i = 1, n
    total = total + i
  end do
  !$omp end parallel do
end subroutine

subroutine reducing(n, total) bind(C)
  use iso_c_binding
  integer(c_int), value :: n
  integer(c_int) :: total, i
  !$omp parallel do reduction(+: total)
  do i = 1, n
    total = total + i
  end do
  !$omp end parallel do
  !$omp parallel
  !$omp critical
  total = total + 1
  !$omp end critical
  !$omp end parallel
end subroutine

subroutine touching(n, i, total) bind(C)
  use iso_c_binding
  integer(c_int), value :: n, i
  integer(c_int) :: total
  integer(c_int), allocatable :: a(:)
  allocate(a(n))
  a = 1
  a(i) = 2
  total = sum(a)
  deallocate(a)
end subroutine
