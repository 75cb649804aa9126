# This file was generated by PyMbs on 2026-11-20 00:08:09 UTC


from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix
from numpy import arctan2 as atan2
from numpy import arctan as atan
from numpy import arcsin as asin
from numpy import arccos as acos
from numpy import sign
from x_sensors import x_sensors


def x_der_state(time, y):

    # state
    q = y[0]
    qd = y[1]

    # inputs

    # controller
    sensors = x_sensors(time, y)

    # constants

    # parameter
    par_1 = (-1.45) # par_1
    par_2 = 1.84 # par_2

    # equations
    der_q = qd
    int_Bwu_loop0 = matrix([[(-1.3)]], dtype=float)
    int_Bwu_loop0_0_0 = int_Bwu_loop0[0,0]
    q_j_b1_Ty = q
    q_j_b0_Rx = ((-1.3) * q_j_b1_Ty)
    M_ = ((int_Bwu_loop0_0_0 * ((1.5 * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx))) * cos(q_j_b0_Rx)) + (1.5 * ((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx))) * sin(q_j_b0_Rx)))) + (int_Bwu_loop0_0_0 * ((int_Bwu_loop0_0_0 * (par_2 + 0.82 + (2 * ((((-0.72) * sin(q_j_b0_Rx)) + (0.2 * cos(q_j_b0_Rx)))**2)) + (2 * ((((-0.2) * sin(q_j_b0_Rx)) + ((-0.72) * cos(q_j_b0_Rx)))**2)) + (1.5 * (((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx)))**2)) + (1.5 * (((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx)))**2)))) + (1.5 * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx))) * cos(q_j_b0_Rx)) + (1.5 * ((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx))) * sin(q_j_b0_Rx)))) + (1.5 * (sin(q_j_b0_Rx)**2)) + (1.5 * (cos(q_j_b0_Rx)**2)))
    int_b_prime_loop0 = matrix([[0]], dtype=float)
    int_b_prime_loop0_0 = int_b_prime_loop0[0,0]
    qd_j_b1_Ty = qd
    qd_j_b0_Rx = (int_Bwu_loop0_0_0 * qd_j_b1_Ty)
    h_ = ((int_Bwu_loop0_0_0 * ((int_b_prime_loop0_0 * (par_2 + 0.82 + (2 * ((((-0.72) * sin(q_j_b0_Rx)) + (0.2 * cos(q_j_b0_Rx)))**2)) + (2 * ((((-0.2) * sin(q_j_b0_Rx)) + ((-0.72) * cos(q_j_b0_Rx)))**2)) + (1.5 * (((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx)))**2)) + (1.5 * (((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx)))**2)))) + (1.5 * ((qd_j_b0_Rx * ((qd_j_b0_Rx * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx)))) + (qd_j_b1_Ty * cos(q_j_b0_Rx)))) + (qd_j_b0_Rx * qd_j_b1_Ty * cos(q_j_b0_Rx))) * ((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx)))) + (1.5 * ((qd_j_b0_Rx * ((qd_j_b0_Rx * ((-(par_1 * cos(q_j_b0_Rx))) - (q_j_b1_Ty * cos(q_j_b0_Rx)) + ((-0.5) * sin(q_j_b0_Rx)))) - (qd_j_b1_Ty * sin(q_j_b0_Rx)))) - (qd_j_b0_Rx * qd_j_b1_Ty * sin(q_j_b0_Rx))) * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx)))) + (2 * (qd_j_b0_Rx**2) * (((-0.72) * sin(q_j_b0_Rx)) + (0.2 * cos(q_j_b0_Rx))) * (((-0.2) * sin(q_j_b0_Rx)) + ((-0.72) * cos(q_j_b0_Rx)))) + (2 * (qd_j_b0_Rx**2) * (((-0.2) * sin(q_j_b0_Rx)) + ((-0.72) * cos(q_j_b0_Rx))) * ((0.72 * sin(q_j_b0_Rx)) + ((-0.2) * cos(q_j_b0_Rx)))))) + (int_b_prime_loop0_0 * ((1.5 * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx))) * cos(q_j_b0_Rx)) + (1.5 * ((par_1 * cos(q_j_b0_Rx)) + (q_j_b1_Ty * cos(q_j_b0_Rx)) + (0.5 * sin(q_j_b0_Rx))) * sin(q_j_b0_Rx)))) + (1.5 * ((qd_j_b0_Rx * ((qd_j_b0_Rx * ((-(par_1 * sin(q_j_b0_Rx))) - (q_j_b1_Ty * sin(q_j_b0_Rx)) + (0.5 * cos(q_j_b0_Rx)))) + (qd_j_b1_Ty * cos(q_j_b0_Rx)))) + (qd_j_b0_Rx * qd_j_b1_Ty * cos(q_j_b0_Rx))) * sin(q_j_b0_Rx)) + (1.5 * ((qd_j_b0_Rx * ((qd_j_b0_Rx * ((-(par_1 * cos(q_j_b0_Rx))) - (q_j_b1_Ty * cos(q_j_b0_Rx)) + ((-0.5) * sin(q_j_b0_Rx)))) - (qd_j_b1_Ty * sin(q_j_b0_Rx)))) - (qd_j_b0_Rx * qd_j_b1_Ty * sin(q_j_b0_Rx))) * cos(q_j_b0_Rx)))
    f_gravity_ = 0
    f_ext_ = 0
    f_ = (f_ext_ + f_gravity_)
    qdd = ((f_ - h_) * (M_**(-1)))
    der_qd = qdd

    return asarray(vstack((der_q, der_qd,))).ravel()
