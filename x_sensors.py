# This file was generated by PyMbs on 2026-11-20 00:08:09 UTC


from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix
from numpy import arctan2 as atan2
from numpy import arctan as atan
from numpy import arcsin as asin
from numpy import arccos as acos
from numpy import sign


def x_sensors(time, y):

    # state
    q = y[0]
    qd = y[1]

    # inputs

    # constants

    # parameter

    # sensor equations
    q_j_b1_Ty = q
    q_j_b0_Rx = ((-1.3) * q_j_b1_Ty)
    int_Bwu_loop0 = matrix([[(-1.3)]], dtype=float)
    int_Bwu_loop0_0_0 = int_Bwu_loop0[0,0]
    qd_j_b1_Ty = qd
    qd_j_b0_Rx = (int_Bwu_loop0_0_0 * qd_j_b1_Ty)
    jq0 = matrix([[q_j_b0_Rx],[qd_j_b0_Rx]], dtype=float)
    jq1 = matrix([[q_j_b1_Ty],[qd_j_b1_Ty]], dtype=float)

    return {
            'jq0' : jq0,
            'jq1' : jq1,
           }
