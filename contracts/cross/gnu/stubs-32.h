/* empty: lets the host C headers be parsed for other targets */
