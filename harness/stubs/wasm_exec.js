// stub
